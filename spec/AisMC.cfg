SPECIFICATION Spec
CONSTANTS L = 3
N = 2
Tables <- MCTables
CHECK_DEADLOCK FALSE
INVARIANTS Unbiased Exact
