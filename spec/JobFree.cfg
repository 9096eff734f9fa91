CONSTANTS Free = TRUE MaxN = 1 MaxScript = 1 MaxFree = 8 CountMax = 1
SPECIFICATION Spec
INVARIANTS Safe
CHECK_DEADLOCK FALSE
