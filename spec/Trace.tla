------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Common part of the trace specifications. The cases recorded from the     *)
(* implementation are read from the file named by VP_CASES. Verdicts are    *)
(* total: every failing clause is printed, and validation carries on from   *)
(* the recorded state.                                                      *)
(***************************************************************************)
EXTENDS Reals, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.VP_CASES)

Clause(name, ok) == IF ok THEN {} ELSE {name}
Report(c, l, bad) == \A b \in bad : PrintT("@@V " \o ToString(c.id) \o " " \o ToString(l) \o " " \o b)
Done(c, l) == PrintT("@@D " \o ToString(c.id) \o " " \o ToString(l))
=============================================================================
