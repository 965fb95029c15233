----------------------------- MODULE TraceInstr -----------------------------
(***************************************************************************)
(* The Instrumenter: a counter machine. Every call that reaches the wrapped *)
(* model adds the number of particles it concerns to one counter; apart     *)
(* from that, a run through the Instrumenter is the run of the model itself. *)
(***************************************************************************)
EXTENDS Trace

VARIABLES ci, l, s
vars == <<ci, l, s>>
C == Cases[ci]

Counters == {"sample", "update", "measure", "pdfxn", "pdfxn_full", "pdfxnmax", "propsmooth", "pdfsmooth", "eval1st", "eval_logp_x0"}
Zero == [k \in Counters |-> 0]

Larger(a, b) == IF a > b THEN a ELSE b

(* which counter a call adds to, and how much *)
CounterOf(f) ==
    CASE f = "sample_process_noise_full" -> "sample"
      [] f = "update_full" -> "update"
      [] f = "measure_full" -> "measure"
      [] f \in {"logp_xnext", "logp_xnext_full", "logp_xnext_singlestep"} -> "pdfxn"
      [] f = "logp_xnext_max_full" -> "pdfxnmax"
      [] f = "propose_smooth" -> "propsmooth"
      [] f = "logp_proposal" -> "pdfsmooth"
      [] f = "eval_1st_stage_weights" -> "eval1st"
      [] f = "eval_logp_x0" -> "eval_logp_x0"
Amount(q) ==
    LET n == q.n  f == q.f IN
    CASE f = "sample_process_noise_full" -> n["ancestors"]
      [] f \in {"update_full", "measure_full", "eval_1st_stage_weights", "eval_logp_x0"} -> n["particles"]
      [] f = "logp_xnext" -> Larger(n["particles"], n["next_part"])
      [] f \in {"logp_xnext_full", "logp_xnext_singlestep"} -> Larger(n["part"], n["find"])
      [] f = "logp_xnext_max_full" -> n["part"]
      [] f = "propose_smooth" -> IF n["anc"] >= 0 THEN n["anc"] ELSE n["find"]
      [] f = "logp_proposal" -> n["prop_part"]

RECURSIVE Count(_, _, _)
Count(cnt, calls, k) ==
    IF k > Len(calls) THEN cnt
    ELSE Count([cnt EXCEPT ![CounterOf(calls[k].f)] = @ + Amount(calls[k])], calls, k + 1)

Get(r, k) == IF k \in DOMAIN r THEN r[k] ELSE -1

EventBad(e, now) ==
    Clause("same", e.same)
    \cup Clause("count", \A k \in Counters : Get(e.cnt, k) = now[k])
    \cup Clause("member", \A k \in Counters : Get(e.mem, k) = now[k])

AddBad(c) ==
    Clause("add", \A k \in Counters : Get(c.sum, k) = c.a[k] + c.b[k])
    \cup Clause("add.kept", c.kept)

FinishBad(c) ==
    Clause("length", c.full)
    \cup Clause("print", /\ {c.said[k].k : k \in 1..Len(c.said)} \subseteq Counters
                         /\ \A k \in 1..Len(c.said) : c.said[k].v = s[c.said[k].k] + IF c.said[k].k = "pdfxn" THEN s["pdfxn_full"] ELSE 0
                         /\ {"sample", "update", "measure", "pdfxn", "pdfxnmax", "propsmooth", "pdfsmooth"}
                                \subseteq {c.said[k].k : k \in 1..Len(c.said)})

Init == ci \in 1..Len(Cases) /\ l = 0 /\ s = Zero
Last == Len(C.ev)
Step == /\ l < Last
        /\ l' = l + 1 /\ ci' = ci
        /\ LET now == Count(s, C.ev[l + 1].calls, 1)
           IN s' = now /\ Report(C, l + 1, EventBad(C.ev[l + 1], now))
Finish == /\ l = Last
          /\ l' = l + 1 /\ UNCHANGED <<ci, s>>
          /\ Report(C, l, IF C.exc # "" THEN {"exc"}
                          ELSE CASE C.kind = "add" -> AddBad(C) [] C.kind = "run" -> FinishBad(C) [] OTHER -> {})
          /\ Done(C, l)
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
