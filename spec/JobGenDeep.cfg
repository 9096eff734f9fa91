CONSTANTS Pairs = TRUE MaxN = 4 CountMax = 5
INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE
