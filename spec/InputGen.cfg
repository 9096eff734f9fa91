INIT GenInit
NEXT GenNext
CONSTANT MaxTris = 1
CHECK_DEADLOCK FALSE
