SPECIFICATION Spec
CONSTANTS L = 9
Every = 3
Chains = 1
Vals = {0, 1, 2}
Num = 2
Den = 9
CHECK_DEADLOCK FALSE
INVARIANTS Count Align SnapAlign Calls EssLaws
