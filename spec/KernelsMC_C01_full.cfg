SPECIFICATION Spec
CONSTANTS
  LLs = {"0.0", "1.0", "-2.0"}
  Full = TRUE
  Kinds = {"randomwalk", "gibbs", "blockgibbs", "hammingball"}
INVARIANTS InSpace Normalised RowSum Invariance Reversible MaskKept
CHECK_DEADLOCK FALSE
