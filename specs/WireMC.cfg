SPECIFICATION Spec
INVARIANTS Prefix Encoders Minimal Show
CHECK_DEADLOCK FALSE
