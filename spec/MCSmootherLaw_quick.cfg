SPECIFICATION Spec
CONSTANTS
 Rows <- RowsQ
 Liks <- LiksQ
 Props <- PropsQ
 Horizon = {3}
 Missings <- MissQ
 Hs <- HsQ
 Tries = 2
INVARIANTS Backward Rejection Metropolis Mhips MhipsRed Mhbp
CHECK_DEADLOCK FALSE
