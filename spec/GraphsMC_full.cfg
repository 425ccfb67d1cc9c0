SPECIFICATION Spec
CONSTANTS NMax = 5
KMax = 3
CHECK_DEADLOCK FALSE
INVARIANTS MisExact CliqueExact CutExact PadExact NCutExact
