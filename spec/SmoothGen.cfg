INIT GInit
NEXT GNext
CONSTANTS N = 4 Eps = 2
CONSTANT Grid <- SmallGrid
CHECK_DEADLOCK FALSE
