SPECIFICATION Spec
CONSTANTS MaxSteps = 4
INVARIANTS Tuning Counters ScanCovers FlipsOK
CHECK_DEADLOCK FALSE
