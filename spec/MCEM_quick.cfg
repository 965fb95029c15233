SPECIFICATION Spec
CONSTANTS
 Variants = {"saem", "psaem", "psaem2"}
 Alphas <- AlphasQ
 Iterations = 3
 Epss <- EpssQ
 Pcts = {0, 50}
 Maxs = {0, 3}
 NewSets <- NewQ
 Ths <- ThsQ
 Ys <- YsQ
INVARIANTS TotalOne Weights Fresh Bounded Positives OnlySmall Inequality
CHECK_DEADLOCK FALSE
