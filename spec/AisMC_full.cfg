SPECIFICATION Spec
CONSTANTS L = 5
N = 3
Tables <- MCTables
CHECK_DEADLOCK FALSE
INVARIANTS Unbiased Exact
