------------------------------ MODULE TraceRuns ------------------------------
(***************************************************************************)
(* Interleaved runs of the implementation (suite "runs"): whatever a call   *)
(* produced when its run was alone it produces among other runs, and again  *)
(* when the run is repeated with the same model and arguments; arguments    *)
(* are left as they were; different random states stay different.           *)
(***************************************************************************)
EXTENDS Trace

VARIABLES ci, l, pos
vars == <<ci, l, pos>>
C == Cases[ci]

Same(a, b) == a = b \/ /\ Len(a) = Len(b)
                       /\ \A i \in 1..Len(a) : a[i] = b[i] \/ RClose(a[i], b[i], "1e-7", "1e-9")

(* call number k of run r *)
Bad(c, e, k) ==
    Clause("order", k <= Len(c.alone[e.p]))
    \cup Clause("same." \o e.x, k <= Len(c.alone[e.p]) => Same(e.out, c.alone[e.p][k]))

End(c) ==
    Clause("complete", \A r \in 1..Len(c.len) : pos[r] = c.len[r])
    \cup Clause("arguments", \A r \in 1..Len(c.args) : c.args[r].was = c.args[r].now)
    \cup Clause("reseeded", \A r, s \in 1..Len(c.state) : r # s => c.state[r] # c.state[s])

Init == ci \in 1..Len(Cases) /\ l = 0 /\ pos = [r \in 1..Len(Cases[ci].len) |-> 0]

Step == /\ C.exc = "" /\ l < Len(C.ev)
        /\ LET e == C.ev[l + 1]
               (* a repetition begins at the start *)
               k == IF pos[e.p] = C.len[e.p] THEN 1 ELSE pos[e.p] + 1
           IN Report(C, l + 1, Bad(C, e, k)) /\ pos' = [pos EXCEPT ![e.p] = k]
        /\ l' = l + 1 /\ ci' = ci

Finish == /\ IF C.exc # "" THEN l = 0 ELSE l = Len(C.ev)
          /\ l' = Len(C.ev) + 1 /\ UNCHANGED <<ci, pos>>
          /\ Report(C, l' , IF C.exc # "" THEN {"exc"} ELSE End(C))
          /\ Done(C, l')

Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
