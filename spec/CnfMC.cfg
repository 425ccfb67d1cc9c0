SPECIFICATION Spec
CONSTANTS NV = 2
NC = 2
CHECK_DEADLOCK FALSE
INVARIANTS Reduction
