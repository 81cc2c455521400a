SPECIFICATION Spec
CONSTANT Keep = FALSE
VIEW View
INVARIANT InBounds
INVARIANT MapsPointAtElements
CHECK_DEADLOCK FALSE
