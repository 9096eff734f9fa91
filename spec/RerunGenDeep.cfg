CONSTANTS MaxRuns = 4 Turns = 6 Turns3 = 2
INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE
