CONSTANTS Instances = {1, 2} Models = {1, 2} MaxRuns = 3 Reset = TRUE Shared = FALSE
SPECIFICATION Spec
INVARIANTS Reproducible
PROPERTY AllEnd
CHECK_DEADLOCK FALSE
