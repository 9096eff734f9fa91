CONSTANTS Free = FALSE MaxN = 3 MaxScript = 1 MaxFree = 0 CountMax = 3
SPECIFICATION Spec
INVARIANTS Accepted Safe Once
PROPERTY Ends
CHECK_DEADLOCK FALSE
