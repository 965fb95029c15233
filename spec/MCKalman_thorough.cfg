SPECIFICATION Spec
CONSTANTS
 Kinds = {"ltv", "mix", "hier"}
 Steps = 4
 YVals <- YT
 Paths <- PathsT
INVARIANTS Filtering Smoothing Evidence Information Backward Marginal
CHECK_DEADLOCK FALSE
