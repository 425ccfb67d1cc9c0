SPECIFICATION Spec
CONSTANTS Lengths1 <- MC1
Lengths2 <- MC2
Quota = 1
Lo = 2
Hi = 4
CHECK_DEADLOCK FALSE
INVARIANTS Partition Counts Bounds SelOnce
