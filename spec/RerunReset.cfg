CONSTANTS Instances = {1, 2} Models = {1, 2} MaxRuns = 3 Reset = FALSE Shared = FALSE
SPECIFICATION Spec
INVARIANTS Reproducible
CHECK_DEADLOCK FALSE
