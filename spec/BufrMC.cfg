SPECIFICATION Spec
CONSTANTS
  Keep = TRUE
INVARIANTS RoundTrip Canonical Accepted InBounds OrderedAttrs MapsPointAtElements SameShape
CHECK_DEADLOCK FALSE
