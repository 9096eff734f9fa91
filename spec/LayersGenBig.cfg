INIT GInit
NEXT GNext
CONSTANTS MaxZ = 4 Inits = {1, 2, 3} Ths = {1, 2, 3} MaxSpans = 3 GapEdges = 6
CHECK_DEADLOCK FALSE
