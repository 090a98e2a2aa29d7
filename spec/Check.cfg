SPECIFICATION Spec
VIEW View
INVARIANT Note
INVARIANT Accepted
ALIAS Report
CHECK_DEADLOCK FALSE
