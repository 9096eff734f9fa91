INIT GenInit
NEXT GenNext
CONSTANT MaxTris = 3
CHECK_DEADLOCK FALSE
