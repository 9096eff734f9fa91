INIT GInit
NEXT GNext
CONSTANTS Shapes <- All MaxA = 2 MaxB = 1
CHECK_DEADLOCK FALSE
