SPECIFICATION Spec
CONSTANTS K = 4 Sizes = {0, 1, 3, 9} Join = 1 Finish = 3
INVARIANT RuleHolds
PROPERTY Ends
CHECK_DEADLOCK FALSE
