CONSTANTS Free = TRUE MaxN = 1 MaxScript = 1 MaxFree = 9 CountMax = 1
SPECIFICATION Spec
INVARIANTS Safe
CHECK_DEADLOCK FALSE
