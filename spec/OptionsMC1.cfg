SPECIFICATION Spec
CONSTANTS
  Threads = {1}
  Depth = 3
  Values = {0, 1, 2}
INVARIANTS Restored Untouched
PROPERTY Isolated
CHECK_DEADLOCK FALSE
