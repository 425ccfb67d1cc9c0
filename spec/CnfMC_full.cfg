SPECIFICATION Spec
CONSTANTS NV = 2
NC = 3
CHECK_DEADLOCK FALSE
INVARIANTS Reduction
