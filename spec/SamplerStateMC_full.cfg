SPECIFICATION Spec
CONSTANTS MaxSteps = 6
INVARIANTS Tuning Counters ScanCovers FlipsOK
CHECK_DEADLOCK FALSE
