CONSTANTS
  Layers = 4
  Row = 3
INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE
