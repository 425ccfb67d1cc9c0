SPECIFICATION Spec
CONSTANTS NSeeds = 3
INVARIANTS GradDiff FhmmDiff FhmmDiffK RbmMarginal RbmBracket PriorNorm FhmmAgree IsingSym
CHECK_DEADLOCK FALSE
