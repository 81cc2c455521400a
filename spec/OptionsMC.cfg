SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Depth = 2
  Values = {0, 1}
INVARIANTS Restored Untouched
PROPERTY Isolated
CHECK_DEADLOCK FALSE
