SPECIFICATION Spec
CONSTANTS
 Variants = {"saem", "psaem", "psaem2"}
 Alphas <- AlphasT
 Iterations = 3
 Epss <- EpssT
 Pcts = {0, 50, 90}
 Maxs = {0, 3}
 NewSets <- NewT
 Ths <- ThsT
 Ys <- YsT
INVARIANTS TotalOne Weights Fresh Bounded Positives OnlySmall Inequality
CHECK_DEADLOCK FALSE
