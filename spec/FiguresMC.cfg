SPECIFICATION Spec
CONSTANTS Samplers = {"gwg", "pas"}
NTicks = 3
CHECK_DEADLOCK FALSE
INVARIANTS InPlace FigureOk SkipIsSeen
