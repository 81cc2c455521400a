SPECIFICATION Spec
VIEW View
INVARIANTS Reflexive Symmetric Sane
CHECK_DEADLOCK FALSE
