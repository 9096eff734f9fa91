SPECIFICATION Spec
CONSTANTS Shapes <- All MaxA = 2 MaxB = 2
INVARIANTS CountingIsUnion NeverNegative ExactSets
PROPERTY Stable
CHECK_DEADLOCK FALSE
