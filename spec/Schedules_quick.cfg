SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Emit
CONSTANTS
  Depth = 3
  Filters = {"pf", "apf", "sir", "pfy", "cpf", "cpfas", "csiras", "cpfyas"}
