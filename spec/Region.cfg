SPECIFICATION Spec
CONSTANTS
  N = 4
  Places = {1, 2}
  Near <- Beside
  BottomCounts = {0, 1, 3}
  TopCounts = {0, 2}
  GapCounts = {0, 1}
  InterfaceCounts = {0, 2}
  Reach = 1
INVARIANTS SolidMeaning Division SupportMeaning NeedMeaning Grounded
PROPERTY Finishes
CHECK_DEADLOCK FALSE
