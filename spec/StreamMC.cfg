SPECIFICATION Spec
INVARIANTS InOrder Complete NoError CutReported
PROPERTY Ends
CHECK_DEADLOCK FALSE
