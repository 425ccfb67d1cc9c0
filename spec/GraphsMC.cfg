SPECIFICATION Spec
CONSTANTS NMax = 4
KMax = 2
CHECK_DEADLOCK FALSE
INVARIANTS MisExact CliqueExact CutExact PadExact NCutExact
