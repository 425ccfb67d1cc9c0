SPECIFICATION Spec
CONSTANTS
  LLs = {"0.0", "1.0", "-2.0"}
  Full = FALSE
  Kinds = {"gwg", "path_auxiliary"}
INVARIANTS InSpace Normalised RowSum Invariance Reversible MaskKept
CHECK_DEADLOCK FALSE
