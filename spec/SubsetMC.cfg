SPECIFICATION Spec
VIEW View
INVARIANTS Sane
CHECK_DEADLOCK FALSE
