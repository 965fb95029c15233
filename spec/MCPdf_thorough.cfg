SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Lo = 0
  Hi = 6
INVARIANTS
  Total
  Symmetric
  Support
  Commutes
