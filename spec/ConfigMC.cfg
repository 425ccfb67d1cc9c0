SPECIFICATION Spec
CONSTANTS
 ExpKeys = {"experiment.a", "experiment.name"}
 ModelKeys = {"model.a"}
 SamplerKeys = {"sampler.name"}
 MaxDicts = 2
 MaxKeys = 2
 MaxVals = 2
INVARIANTS ByPrecedence OverridesWin TaskRuns SectionsApart AllLaunched NeverTooMany
CHECK_DEADLOCK FALSE
