SPECIFICATION Spec
INVARIANT ValuesOK
INVARIANT Emit
CHECK_DEADLOCK FALSE
