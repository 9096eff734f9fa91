INIT GenInit
NEXT GenNext
CONSTANT MaxMods = 3
CHECK_DEADLOCK FALSE
