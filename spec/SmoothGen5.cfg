INIT GInit
NEXT GNext
CONSTANTS N = 5 Eps = 2
CONSTANT Grid <- SmallGrid
CHECK_DEADLOCK FALSE
