INIT Init
NEXT Next
INVARIANT Held
CONSTRAINT Bound
ACTION_CONSTRAINT Show
VIEW View2
CHECK_DEADLOCK FALSE
