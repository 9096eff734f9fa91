SPECIFICATION Spec
CONSTANTS Rings = 1 JoinDist2 = 4 Nearest = FALSE AtEnd = TRUE
INVARIANT Right
CHECK_DEADLOCK FALSE
