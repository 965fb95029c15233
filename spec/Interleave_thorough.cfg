SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS
  Alone
  Emit
CONSTANTS
  Runs = 3
  Steps = 4
  Exchange = TRUE
