CONSTANTS
  Layers = 3
  Row = 3
INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE
