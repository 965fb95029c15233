SPECIFICATION Spec
CONSTANTS
 Rows <- RowsT
 Liks <- LiksT
 Props <- PropsT
 Horizon = {2, 3, 4}
 Missings <- MissT
 Hs <- HsT
 Tries = 3
INVARIANTS Backward Rejection Metropolis Mhips MhipsRed Mhbp
CHECK_DEADLOCK FALSE
