SPECIFICATION Spec
INVARIANTS WellFormed SameOK Emit
CHECK_DEADLOCK FALSE
