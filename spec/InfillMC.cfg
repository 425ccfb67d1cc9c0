SPECIFICATION Spec
CONSTANTS Lengths1 <- MC1
Lengths2 <- MC2
Quota = 2
Lo = 2
Hi = 3
CHECK_DEADLOCK FALSE
INVARIANTS Partition Counts Bounds SelOnce
