SPECIFICATION Spec
CONSTANTS NSeeds = 41
INVARIANTS SweepNorm SweepInv CoverLaw Disc
CHECK_DEADLOCK FALSE
