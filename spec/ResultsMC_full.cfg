SPECIFICATION Spec
CONSTANTS MaxBatches = 4
Vals = {0, 1, 3}
Logs = 2
CHECK_DEADLOCK FALSE
INVARIANTS NothingLost Aligned TimeAdds Weighted
PROPERTY Grows
