SPECIFICATION Spec
CONSTANTS L = 4
Log = 2
Chains = 2
Vals = {0, 1, 2}
CHECK_DEADLOCK FALSE
INVARIANTS Monotone OnePerLog Exact Attained LastIsBest Sched
