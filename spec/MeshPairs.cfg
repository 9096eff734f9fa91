SPECIFICATION Spec
CONSTANTS PointSet <- Pairs  MaxFaces = 2  Meld = 1
INVARIANTS NoDegenerate NoDuplicate InOrder NothingLost Mutual StaysWatertight
CONSTRAINT Canon
CHECK_DEADLOCK FALSE
