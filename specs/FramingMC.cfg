SPECIFICATION Spec
INVARIANTS InOrder WroteAll Strict
VIEW View
CHECK_DEADLOCK FALSE
