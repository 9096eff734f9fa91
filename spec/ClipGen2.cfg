INIT GInit
NEXT GNext
CONSTANTS Shapes <- All MaxA = 2 MaxB = 2
CHECK_DEADLOCK FALSE
