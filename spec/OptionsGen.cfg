CONSTANTS L = 3
INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE
