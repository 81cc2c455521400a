SPECIFICATION Spec
INVARIANTS RoundTrip HeaderBack InField InBounds
CHECK_DEADLOCK FALSE
