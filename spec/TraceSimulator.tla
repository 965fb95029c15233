--------------------------- MODULE TraceSimulator ---------------------------
(***************************************************************************)
(* The Simulator: what it feeds to the filter, and its readouts.            *)
(***************************************************************************)
EXTENDS Filter, Trace

VARIABLES ci, l
vars == <<ci, l>>
C == Cases[ci]

(* measurement of time t and input of the step from t to t+1 *)
Y(c, t) == IF c.first THEN c.y[t + 1] ELSE IF t = 0 THEN Missing ELSE c.y[t]
U(c, t) == c.u[t + 1]
S(c, t) == c.st[t + 1]

WellFormed(c) ==
    /\ Len(c.st) = c.T
    /\ \A k \in 1..c.T : Len(c.st[k].x) = c.N /\ Len(c.st[k].w) = c.N /\ Len(c.st[k].anc) = c.N
        /\ \A i \in 1..c.N : c.st[k].anc[i] \in 0..(c.N - 1)
    /\ c.eshape = <<c.T, c.N, 2>> /\ c.wshape = <<c.T, c.N>>
    /\ Len(c.fmean) = c.T
    /\ c.smoothed => c.sshape = <<c.T, c.M, 2>> /\ Len(c.sx) = c.T /\ Len(c.smean) = c.T

Cond(c) == c.filter \in Conditional
Trig(c, t) == TriggerChoices(c.filter, ResamplingLogW(c.m, c.filter, S(c, t).w, S(c, t).x, U(c, t), Y(c, t + 1), t), c.res, c.N)

StartBad(c) ==
    Clause("source", \A i \in 1..(IF Cond(c) THEN c.N - 1 ELSE c.N) : LET v == S(c, 0).prov[i] IN
            IF c.first /\ c.filter \in FromMeasurement THEN v.k = "py" /\ v.y = Y(c, 0) /\ v.t = 0 ELSE v.k = "init")
    \cup Clause("weights", SameLogWeights(S(c, 0).w,
        IF c.first /\ c.filter \notin FromMeasurement THEN MeasureLogW(c.m, UniformLogW(c.N), [i \in 1..c.N |-> -1], S(c, 0).x, Y(c, 0), 0) ELSE UniformLogW(c.N)))

StepBad(c, t) ==
    LET a == S(c, t)  b == S(c, t + 1)
        par(i) == a.x[b.anc[i] + 1]
        n == IF Cond(c) THEN c.N - 1 ELSE c.N
        ch == Trig(c, t)
        exp(r) == ForwardLogW(c.m, c.filter, a.w, [i \in 1..c.N |-> -1], a.x, r, b.anc, b.x, U(c, t), Y(c, t + 1), t)
    IN Clause("input", \A i \in 1..n : LET v == b.prov[i] IN
            v.k \in {"upd", "qs"} => v.u = U(c, t) /\ v.t = t /\ (v.k = "qs" => v.y = Y(c, t + 1))
            /\ (v.k = "py" => v.y = Y(c, t + 1) /\ v.t = t + 1))
       \cup Clause("source", \A i \in 1..n : b.prov[i].k = IF c.filter \in SirLike THEN "qs" ELSE IF c.filter \in FromMeasurement THEN "py" ELSE "upd")
       \cup Clause("weights", \E r \in ch : SameLogWeights(b.w, exp(r)))

Column(c, r, k) == RDot(r, IF k = 1 THEN c.x ELSE c.id)

Bad(c) ==
    IF ~WellFormed(c) THEN {"shape"}
    ELSE LET p == Ev([k \in 1..c.T |-> Probs(c.st[k].w)])
             must == Cardinality({t \in 0..(c.T - 2) : Trig(c, t) = {TRUE}})
             may == Cardinality({t \in 0..(c.T - 2) : TRUE \in Trig(c, t)})
         IN StartBad(c) \cup UNION {StepBad(c, t) : t \in 0..(c.T - 2)}
            \cup Clause("params", c.mpar = c.par)
            \cup Clause("resamplings", c.ret \in must..may)
            \cup Clause("estimates", \A k \in 1..c.T : c.estx[k] = c.st[k].x /\ c.estid[k] = c.st[k].id)
            \cup Clause("probabilities", \A k \in 1..c.T : \A i \in 1..c.N : RClose(c.estw[k][i], p[k][i], "1e-9", "1e-12"))
            \cup Clause("mean", \A k \in 1..c.T :
                    /\ RClose(c.fmean[k][1], RDot(p[k], c.st[k].x), "1e-8", "1e-9")
                    /\ RClose(c.fmean[k][2], RDot(p[k], c.st[k].id), "1e-8", "1e-9"))
            \cup (IF ~c.smoothed THEN {}
                  ELSE Clause("smoothed", c.sestx = c.sx /\ c.sestid = c.sid)
                       \cup Clause("smean", \A k \in 1..c.T :
                            /\ RClose(c.smean[k][1], RDiv(RSum(c.sx[k]), c.M), "1e-9", "1e-9")
                            /\ RClose(c.smean[k][2], RDiv(RSum(c.sid[k]), c.M), "1e-9", "1e-9")))

Init == ci \in 1..Len(Cases) /\ l = 0
Step == /\ l = 0
        /\ l' = 1 /\ ci' = ci
        /\ IF C.exc # "" THEN Report(C, 1, {"exc"}) ELSE Report(C, 1, Bad(C))
        /\ Done(C, 1)
Next == Step
Spec == Init /\ [][Next]_vars
=============================================================================
