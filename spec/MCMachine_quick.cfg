SPECIFICATION Spec
CONSTANTS
 Filters = {"pf", "apf", "sir", "pfy", "cpf", "cpfas", "csiras", "cpfyas"}
 Ns = {2}
 Steps = 2
 Thresholds <- ThrQ
 Refs <- RefsQ
 Hs <- HQ
INVARIANTS Genealogy ReferenceKept ReferenceLineage NoDeadParents WeightsMean WeightsSane
PROPERTIES HistoryGrows
CHECK_DEADLOCK FALSE
