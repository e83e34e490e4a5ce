SPECIFICATION Spec
INVARIANTS Strict Show
CHECK_DEADLOCK FALSE
