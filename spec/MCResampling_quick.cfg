SPECIFICATION Spec
CONSTANTS MaxN = 3 MaxW = 3 MaxDraws = 4
INVARIANTS InRange CountsOK NoZero SameAsDirect ExactMean
CHECK_DEADLOCK FALSE
