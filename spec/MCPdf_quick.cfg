SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Lo = 0
  Hi = 3
INVARIANTS
  Total
  Symmetric
  Support
  Commutes
