SPECIFICATION Spec
CONSTANTS NSeeds = 6
INVARIANTS SweepNorm SweepInv CoverLaw Disc
CHECK_DEADLOCK FALSE
