SPECIFICATION Spec
CONSTANTS MaxN = 9
MaxB = 6
MaxP = 3
CHECK_DEADLOCK FALSE
INVARIANTS PrefixOfStream OnceEach
PROPERTIES Complete
