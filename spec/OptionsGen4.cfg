CONSTANTS L = 4
INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE
