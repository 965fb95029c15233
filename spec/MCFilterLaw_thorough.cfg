SPECIFICATION Spec
CONSTANTS
 Starts <- StartsT
 Missings <- MissT
 Rows <- RowsT
 Liks <- LiksT
 Stage <- StageT
 Props <- PropsT
 Filters = {"pf", "apf", "sir", "pfy", "cpf", "cpfas", "csiras", "cpfyas"}
 Steps = {1, 2}
 Ns = {2}
 Thresholds <- ThrT
INVARIANTS UnbiasedEstimate InvariantKernel
CHECK_DEADLOCK FALSE
