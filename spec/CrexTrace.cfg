SPECIFICATION Spec
VIEW View
INVARIANT InBounds
CHECK_DEADLOCK FALSE
