INIT GInit
NEXT GNext
CONSTANTS PointSet <- Pairs MaxFaces = 1 Meld = 1 Deep = TRUE
CHECK_DEADLOCK FALSE
