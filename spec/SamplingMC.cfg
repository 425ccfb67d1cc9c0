SPECIFICATION Spec
CONSTANTS L = 6
Every = 2
Chains = 1
Vals = {0, 1, 2}
Num = 1
Den = 3
CHECK_DEADLOCK FALSE
INVARIANTS Count Align SnapAlign Calls EssLaws
