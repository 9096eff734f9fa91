SPECIFICATION Spec
CONSTANTS PointSet <- Spread4  MaxFaces = 3  Meld = 2
INVARIANTS NoDegenerate NoDuplicate InOrder NothingLost Mutual StaysWatertight
CONSTRAINT Canon
CHECK_DEADLOCK FALSE
