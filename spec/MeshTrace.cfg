SPECIFICATION TSpec
CONSTANTS PointSet = {} MaxFaces = 0 Meld = 0
CONSTRAINT Finished
POSTCONDITION AllSeen
CHECK_DEADLOCK FALSE
