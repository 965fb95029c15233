SPECIFICATION Spec
CONSTANTS
 Filters = {"pf", "apf", "sir", "pfy", "cpf", "cpfas", "csiras", "cpfyas"}
 Ns = {2, 3}
 Steps = 2
 Thresholds <- ThrQ
 Refs <- RefsT
 Hs <- HT
INVARIANTS Genealogy ReferenceKept ReferenceLineage NoDeadParents WeightsMean WeightsSane
PROPERTIES HistoryGrows
CHECK_DEADLOCK FALSE
