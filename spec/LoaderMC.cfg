SPECIFICATION Spec
CONSTANTS MaxN = 7
MaxB = 4
MaxP = 2
CHECK_DEADLOCK FALSE
INVARIANTS PrefixOfStream OnceEach
PROPERTIES Complete
