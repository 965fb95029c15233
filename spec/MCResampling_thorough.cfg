SPECIFICATION Spec
CONSTANTS MaxN = 4 MaxW = 4 MaxDraws = 6
INVARIANTS InRange CountsOK NoZero SameAsDirect ExactMean
CHECK_DEADLOCK FALSE
