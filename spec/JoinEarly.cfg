SPECIFICATION Spec
CONSTANTS Rings = 1 JoinDist2 = 4 Nearest = TRUE AtEnd = FALSE
INVARIANT Right
CHECK_DEADLOCK FALSE
