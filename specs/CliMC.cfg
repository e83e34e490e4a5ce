SPECIFICATION Spec
INVARIANT Formatted
PROPERTY Gentle
CHECK_DEADLOCK FALSE
