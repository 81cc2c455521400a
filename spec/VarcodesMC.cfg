SPECIFICATION Spec
CONSTANT MaxLen = 4
INVARIANTS RoundTrip Conserved Slices
CHECK_DEADLOCK FALSE
