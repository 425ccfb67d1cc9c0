SPECIFICATION Spec
CONSTANTS
Steps = 4
Rows = {0, 1}
Size = 4
Batch = 2
Decay = "0.75"
LR = "0.5"
CHECK_DEADLOCK FALSE
INVARIANTS Consumed BufferSize Persistent EmaBetween FirstCopies ConstantIgnored
PROPERTY Descends
