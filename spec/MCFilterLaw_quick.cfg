SPECIFICATION Spec
CONSTANTS
 Starts <- StartsQ
 Missings <- MissQ
 Rows <- RowsQ
 Liks <- LiksQ
 Stage <- StageQ
 Props <- PropsQ
 Filters = {"pf", "apf", "sir", "pfy", "cpf", "cpfas", "csiras", "cpfyas"}
 Steps = {2}
 Ns = {2}
 Thresholds <- ThrQ
INVARIANTS UnbiasedEstimate InvariantKernel
CHECK_DEADLOCK FALSE
