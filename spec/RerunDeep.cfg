CONSTANTS Instances = {1, 2, 3} Models = {1, 2} MaxRuns = 4 Reset = TRUE Shared = FALSE
SPECIFICATION Spec
INVARIANTS Reproducible
CHECK_DEADLOCK FALSE
