SPECIFICATION Spec
CONSTANTS
  N = 5
  Places = {1, 2}
  Near <- Beside
  BottomCounts = {0, 1, 2, 5}
  TopCounts = {0, 1, 3}
  GapCounts = {0, 1, 3}
  InterfaceCounts = {0, 1, 2}
  Reach = 1
INVARIANTS SolidMeaning Division SupportMeaning NeedMeaning Grounded
CHECK_DEADLOCK FALSE
