SPECIFICATION Spec
INVARIANTS Succeeds Understood Told Stuck Emit
CHECK_DEADLOCK FALSE
