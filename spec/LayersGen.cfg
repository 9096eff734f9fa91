INIT GInit
NEXT GNext
CONSTANTS MaxZ = 4 Inits = {1, 2} Ths = {1, 2, 3} MaxSpans = 2 GapEdges = 5
CHECK_DEADLOCK FALSE
