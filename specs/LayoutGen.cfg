SPECIFICATION Spec
INVARIANTS EditsOK Emit
CHECK_DEADLOCK FALSE
