SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Emit
CONSTANTS
  Depth = 4
  Filters = {"pf", "apf", "sir", "pfy", "cpf", "cpfas", "csiras", "cpfyas"}
