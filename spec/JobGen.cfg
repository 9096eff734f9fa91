CONSTANTS Pairs = FALSE MaxN = 3 CountMax = 3
INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE
