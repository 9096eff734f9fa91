CONSTANTS MaxRuns = 3 Turns = 4 Turns3 = 0
INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE
