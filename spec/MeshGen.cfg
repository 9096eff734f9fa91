INIT GInit
NEXT GNext
CONSTANTS PointSet <- Pairs MaxFaces = 1 Meld = 1 Deep = FALSE
CHECK_DEADLOCK FALSE
