CONSTANTS Free = FALSE MaxN = 2 MaxScript = 1 MaxFree = 0 CountMax = 2
SPECIFICATION Spec
INVARIANTS Accepted Safe Once
PROPERTY Ends
CHECK_DEADLOCK FALSE
