SPECIFICATION Spec
CONSTANTS
 ExpKeys = {"experiment.a", "experiment.name"}
 ModelKeys = {"model.a", "model.b"}
 SamplerKeys = {"sampler.name"}
 MaxDicts = 2
 MaxKeys = 2
 MaxVals = 3
INVARIANTS ByPrecedence OverridesWin TaskRuns SectionsApart AllLaunched NeverTooMany
CHECK_DEADLOCK FALSE
