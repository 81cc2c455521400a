SPECIFICATION Spec
VIEW View
INVARIANTS Sane Equivalence
CHECK_DEADLOCK FALSE
