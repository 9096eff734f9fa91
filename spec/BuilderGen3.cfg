CONSTANTS
  Depth = 3
  Heights = {0, 1}
INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE
