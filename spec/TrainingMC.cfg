SPECIFICATION Spec
CONSTANTS
Steps = 3
Rows = {0, 1}
Size = 3
Batch = 2
Decay = "0.75"
LR = "0.5"
CHECK_DEADLOCK FALSE
INVARIANTS Consumed BufferSize Persistent EmaBetween FirstCopies ConstantIgnored
PROPERTY Descends
