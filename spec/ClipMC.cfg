SPECIFICATION Spec
CONSTANTS Shapes <- All MaxA = 2 MaxB = 1
INVARIANTS CountingIsUnion NeverNegative ExactSets
PROPERTY Stable
CHECK_DEADLOCK FALSE
