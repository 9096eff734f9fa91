SPECIFICATION Spec
CONSTANTS
  N = 4
  Places = {1, 2, 3}
  Near <- Beside
  BottomCounts = {2}
  TopCounts = {1}
  GapCounts = {0, 1}
  InterfaceCounts = {0, 2}
  Reach = 1
INVARIANTS SolidMeaning Division SupportMeaning NeedMeaning Grounded
CHECK_DEADLOCK FALSE
