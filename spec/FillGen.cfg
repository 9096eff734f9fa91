INIT GInit
NEXT GNext
CONSTANTS W = 3 H = 3 Dist = 1 Limit = 2
CHECK_DEADLOCK FALSE
