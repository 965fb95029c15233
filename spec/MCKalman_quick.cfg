SPECIFICATION Spec
CONSTANTS
 Kinds = {"ltv", "mix", "hier"}
 Steps = 3
 YVals <- YQ
 Paths <- PathsQ
INVARIANTS Filtering Smoothing Evidence Information Backward Marginal
CHECK_DEADLOCK FALSE
