SPECIFICATION Spec
CONSTANTS Samplers = {"gwg", "pas"}
NTicks = 4
CHECK_DEADLOCK FALSE
INVARIANTS InPlace FigureOk SkipIsSeen
