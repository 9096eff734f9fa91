CONSTANTS
  Depth = 2
  Heights = {0, 1}
INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE
