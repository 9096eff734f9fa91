INIT GenInit
NEXT GenNext
CONSTANT MaxMods = 5
CHECK_DEADLOCK FALSE
