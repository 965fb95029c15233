------------------------------ MODULE Schedules ------------------------------
(***************************************************************************)
(* Every schedule of calls a user may make on a forward filter, up to Depth *)
(* calls: measure or not before the first step, extra measurements, missing *)
(* measurements, absent inputs, storage that is too short, exact, too long  *)
(* or not pre-allocated, a smoothed estimate asked for after one of the      *)
(* calls. Complete schedules are printed and replayed into the              *)
(* implementation (suite "filter", property C10).                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Depth, Filters

VARIABLES f, pre, n, res, ops, look
vars == <<f, pre, n, res, ops, look>>

NeedsY == {"sir", "csiras", "pfy", "cpfyas"}
FromY == {"pfy", "cpfyas"}

Init == /\ f \in Filters
        /\ pre \in {-1, 1, 2, Depth + 2}
        /\ n \in {1, 3}
        /\ res \in IF f \in {"pf", "apf", "sir", "pfy"} THEN {0, 101} ELSE {101}
        /\ look \in IF n = 3 /\ pre \in {-1, Depth + 2} THEN 0..(Depth - 1) ELSE {0}
        /\ ops = <<>>

(* signals depend on the position so that any shift is visible *)
YAt(k) == k % 3
UAt(k) == (2 * k + 1) % 4

Measure == /\ Len(ops) < Depth
           /\ f \in FromY => ops = <<>>
           /\ ops' = Append(ops, [op |-> "measure", y |-> YAt(Len(ops)), u |-> -1])

Forward(y, u) == /\ Len(ops) < Depth
                 /\ ops' = Append(ops, [op |-> "forward", y |-> y, u |-> u])

Next == /\ \/ Measure
           \/ \E y \in {YAt(Len(ops))} \cup (IF f \in NeedsY THEN {} ELSE {-1}) :
                \E u \in {UAt(Len(ops))} \cup (IF ops = <<>> THEN {-1} ELSE {}) : Forward(y, u)
        /\ UNCHANGED <<f, pre, n, res, look>>

Spec == Init /\ [][Next]_vars

Emit == Len(ops) = Depth =>
          PrintT("@@S" \o ToJson([filter |-> f, pre |-> pre, n |-> n, res |-> res, look |-> look, ops |-> ops]))
=============================================================================
