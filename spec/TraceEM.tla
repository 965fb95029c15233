------------------------------- MODULE TraceEM -------------------------------
(***************************************************************************)
(* Recorded parameter estimations.                                          *)
(*   loop   what the model is asked by the EM loops, in order               *)
(*   num    one numerical maximization of a quadratic objective             *)
(*   emltv  EM iterates for linear models, where everything is exact        *)
(***************************************************************************)
EXTENDS EMGauss, Trace

VARIABLES ci, l, s
vars == <<ci, l, s>>
Case == Cases[ci]

-----------------------------------------------------------------------------
(* loop: s = [k |-> iteration, ph |-> phase, p |-> current parameters,       *)
(*            mem |-> memory, ref |-> smoothed trajectories so far]           *)
Start(c) == [k |-> 0, ph |-> "start", p |-> c.p0, mem |-> <<>>, ref |-> c.ref]

SA(c) == c.variant # "em"
Cond(c) == c.variant \in {"psaem", "psaem2"}
Same(p, q) == Len(p) = Len(q) /\ \A i \in DOMAIN p : RClose(p[i], q[i], 0, 0)

Alpha(c, k) == IF c.alpha = <<>> THEN DefaultAlpha(k - 1) ELSE c.alpha[k]
Column(f, j) == [t \in 1..Len(f) |-> f[t][j]]
RECURSIVE Chain(_, _, _)
Chain(pt, t, i) ==       \* states of the ancestors of particle i at time t
    LET x == pt[t].x[i]
    IN IF t = 1 THEN <<x>> ELSE Chain(pt, t - 1, pt[t].anc[i] + 1) \o <<x>>
PProbs(e) == Probs(e.pt[Len(e.pt)].w)

NewEntries(c, e) ==
    IF c.rb THEN LET p == PProbs(e) IN [i \in 1..Len(p) |-> [tr |-> Chain(e.pt, Len(e.pt), i), w |-> p[i]]]
    ELSE LET M == Len(e.sm[1]) IN [j \in 1..M |-> [tr |-> Column(e.sm, j), w |-> RDiv(1, M)]]

ShapeOK(c, e) ==
    /\ Len(e.pt) = c.T /\ Len(e.sm) = c.T
    /\ \A t \in 1..c.T : Len(e.sm[t]) = Len(e.sm[1]) /\ Len(e.pt[t].x) = Len(e.pt[1].x)
                         /\ Len(e.pt[t].anc) = Len(e.pt[1].x)
                         /\ \A i \in 1..Len(e.pt[t].anc) : e.pt[t].anc[i] \in 0..(Len(e.pt[1].x) - 1)
    /\ SA(c) => Len(e.trajs) = Len(e.w)

(* the arguments of the maximization in iteration k *)
MaxBad(c, st, e) ==
    LET k == st.k
        N == Sched(c.nump, k)
        M == Sched(c.numt, k)
        cols == {Column(e.sm, j) : j \in 1..Len(e.sm[1])}
        last == Column([t \in 1..c.T |-> e.pt[t].x], N)
        mem == SAStep(c.variant, st.mem, NewEntries(c, e), Alpha(c, k), c.eps, c.pct, c.maxtraj)
    IN IF ~ShapeOK(c, e) THEN {"shape"}
       ELSE Clause("numpart", Len(e.pt[1].x) = N)
            \cup Clause("numtraj", Len(e.sm[1]) = M)
            \cup Clause("params", Same(e.p, st.p))
            \* the simulation is made with the current parameters
            \cup Clause("simulated", \A t \in 1..c.T : \A i \in 1..N :
                          (c.condfilter /\ i = N) \/ t = 1 \/ RClose(e.pt[t].par[i], st.p[1], "1e-12", 0))
            \cup Clause("filter", e.stage1 = (c.filter = "apf" /\ c.anyy))
            \cup Clause("cond", c.condfilter => Len(e.pt[1].x) = N /\ \E tr \in {st.ref[j] : j \in 1..Len(st.ref)} : last = tr)
            \cup (CASE c.smoother = "ancestor" -> Clause("smoother", cols \subseteq {Chain(e.pt, c.T, i) : i \in 1..N})
                    [] c.smoother = "shift" -> Clause("smoother", \A j \in 1..Len(e.lab[1]) : \A t \in 1..(c.T - 1) :
                                                         e.lab[t][j] = (e.lab[t + 1][j] + 1) % N)
                    [] OTHER -> {})
            \cup Clause("straj", e.belong)
            \cup (IF SA(c) THEN Clause("memory", SameMemory([i \in 1..Len(e.w) |-> [tr |-> e.trajs[i], w |-> e.w[i]]], mem))
                                \cup Clause("maxtraj", c.variant = "psaem" /\ c.maxtraj > 0 => Len(e.w) <= c.maxtraj)
                  ELSE {})

AfterMax(c, st, e) ==
    [st EXCEPT !.ph = "max", !.p = e.ret,
               !.mem = IF SA(c) THEN SAStep(c.variant, st.mem, NewEntries(c, e), Alpha(c, st.k), c.eps, c.pct, c.maxtraj) ELSE <<>>,
               !.ref = IF Cond(c) THEN [j \in 1..Len(e.sm[1]) |-> Column(e.sm, j)] ELSE st.ref]

(* the order of the events *)
LoopBad(c, st, e) ==
    CASE e.e = "set" -> Clause("order", st.ph \in {"start", "set", "cb"} \/ (~c.cb /\ st.ph = "max"))
                        \cup Clause("params", Same(e.p, st.p))
      [] e.e = "init" -> Clause("order", st.ph = "set") \cup Clause("numpart", e.n = Sched(c.nump, st.k))
      [] e.e = "cbsim" -> Clause("order", st.ph = "init" /\ c.cbsim)
      [] e.e = "max" -> (IF st.ph = (IF c.cbsim THEN "cbsim" ELSE "init") THEN MaxBad(c, st, e) ELSE {"order"})
      [] e.e = "cb" -> Clause("order", st.ph = "max" /\ c.cb) \cup Clause("callback", Same(e.p, st.p) /\ e.it - c.ev[c.firstcb].it = st.k - 1)
      [] e.e = "return" -> Clause("order", st.ph \in {IF c.cb THEN "cb" ELSE "max"})
                           \cup Clause("iterations", st.k = c.iters) \cup Clause("result", Same(e.p, st.p))
LoopNext(c, st, e) ==
    CASE e.e = "set" -> [st EXCEPT !.ph = "set", !.k = IF st.ph = "set" THEN st.k ELSE st.k + 1]
      [] e.e = "init" -> [st EXCEPT !.ph = "init"]
      [] e.e = "cbsim" -> [st EXCEPT !.ph = "cbsim"]
      [] e.e = "max" -> IF ShapeOK(c, e) THEN AfterMax(c, st, e) ELSE [st EXCEPT !.ph = "max", !.p = e.ret]
      [] e.e = "cb" -> [st EXCEPT !.ph = "cb"]
      [] e.e = "return" -> [st EXCEPT !.ph = "return"]
Finished(c, st) == st.ph = "return"

-----------------------------------------------------------------------------
(* gt: the table of the gradient test. The terms of the objective as functions *)
(* of one parameter, the others kept, and their derivatives                     *)
Targets0(c, j) == [i \in 1..Len(c.x[1]) |-> RAdd(c.k0[j], c.x[1][i])]
Targets1(c, j) == [q \in 1..((Len(c.x) - 1) * Len(c.x[1])) |->
    LET M == Len(c.x[1])
        t == 1 + ((q - 1) \div M)
        i == 1 + ((q - 1) % M)
    IN RAdd(RAdd(c.k1[j], RSub(c.x[t + 1][i], RMul("0.5", c.x[t][i]))), RAdd(c.u[t], RMul("0.1", c.tt[t])))]
Targets2(c, j) == 
    LET M == Len(c.x[1])
        sn == SelectSeq([t \in 1..Len(c.x) |-> t], LAMBDA t : c.y[t] # <<>>)
    IN [q \in 1..(Len(sn) * M) |->
          LET t == sn[1 + ((q - 1) \div M)]
              i == 1 + ((q - 1) % M)
          IN RAdd(RAdd(c.k2[j], RSub(c.y[t][1], c.x[t][i])), RMul("0.2", c.tt[t]))]
TermVal(w, th, targets(_), M) ==      \* -1/2 sum_j w_j mean_i sum_t (theta_j - target)^2
    RDiv(RMul("-0.5", RSum([j \in 1..Len(w) |-> RMul(w[j], RSum([q \in 1..Len(targets(j)) |->
            LET e == RSub(th[j], targets(j)[q]) IN RMul(e, e)]))])), M)
TermDiff(w, th, targets(_), M, j) ==
    RDiv(RNeg(RMul(w[j], RSum([q \in 1..Len(targets(j)) |-> RSub(th[j], targets(j)[q])]))), M)
-----------------------------------------------------------------------------
(* num: the objective  mean log p(x0) + sum mean log p(x'|x) + sum mean log p(y|x) *)
(* is quadratic in every parameter:  -1/2 sum_j A_j theta_j^2 - 2 B_j theta_j + .. *)
NumBad(c) ==
    LET T == Len(c.x)
        M == Len(c.x[1])
        P == 1..Len(c.ret)
        seen == {t \in 1..T : c.y[t] # <<>>}
        A(j) == RAdd(RAdd(c.a[j], RMul(T - 1, c.b[j])), RMul(Cardinality(seen), c.c[j]))
        c0(j) == RSum([i \in 1..M |-> RMul(c.a[j], RAdd(c.k0[j], c.x[1][i]))])
        c1(j) == RSum([t \in 1..(T - 1) |-> RSum([i \in 1..M |->
                    RMul(c.b[j], RAdd(RAdd(c.k1[j], RSub(c.x[t + 1][i], RMul("0.5", c.x[t][i]))),
                                      RAdd(c.u[t], RMul("0.1", t - 1))))])])
        c2(j) == RSum([t \in 1..T |-> IF c.y[t] = <<>> THEN 0 ELSE RSum([i \in 1..M |->
                    RMul(c.c[j], RAdd(RAdd(c.k2[j], RSub(c.y[t][1], c.x[t][i])), RMul("0.2", t - 1)))])])
        B(j) == RDiv(RAdd(RAdd(c0(j), c1(j)), c2(j)), M)
        best(j) == LET v == RDiv(B(j), A(j))
                   IN IF c.bounds = <<>> THEN v
                      ELSE RMin2(RMax2(v, c.bounds[j][1]), c.bounds[j][2])
        ok(j) == RClose(c.ret[j], Ev(best(j)), "1e-3", "1e-3")
        tt == [t \in 1..T |-> t - 1]
        d == [k0 |-> c.k0, k1 |-> c.k1, k2 |-> c.k2, x |-> c.x, y |-> c.y, u |-> c.u, tt |-> tt]
        val(w, targets(_)) == Ev(TermVal(w, c.th, targets, M))
    IN Clause("maximum", \A j \in P : ok(j))
       \cup Clause("term.y", RClose(c.vy[1], val(c.c, LAMBDA q : Targets2(d, q)), "1e-9", "1e-9"))
       \cup Clause("term.xnext", RClose(c.vxn[1], val(c.b, LAMBDA q : Targets1(d, q)), "1e-9", "1e-9"))
       \cup Clause("bounds", c.bounds # <<>> => \A j \in P : RLe(c.bounds[j][1], RAdd(c.ret[j], "1e-9"))
                                                             /\ RLe(c.ret[j], RAdd(c.bounds[j][2], "1e-9")))

-----------------------------------------------------------------------------
(* gt, one row *)
GtRow(c, k) ==
    LET j == c.id0 + 1
        th == [c.th EXCEPT ![j] = c.vals[k]]
        M == Len(c.x[1])
        tol(a, b) == RClose(a, b, "1e-9", "1e-9")
        row(name, r, w, targets(_)) ==
             Clause(name \o ".param", REq(r.params[k], c.vals[k]))
             \cup Clause(name \o ".value", tol(r.vals[k], Ev(TermVal(w, th, targets, M))))
             \cup Clause(name \o ".gradient", IF c.analytic THEN tol(r.diff[k], Ev(TermDiff(w, th, targets, M, j))) ELSE r.diff = <<>>)
    IN row("x0", c.px0, c.a, LAMBDA q : Targets0(c, q))
       \cup row("xnext", c.pxn, c.b, LAMBDA q : Targets1(c, q))
       \cup row("y", c.py, c.c, LAMBDA q : Targets2(c, q))
(* the drawing: the curve, and tangents touching it *)
GtDraw(c, r) ==
    LET touch(sg) == \E k \in 1..Len(r.vals) :
            LET dx == RSub(sg[2][1], r.params[k])
            IN /\ RClose(RAdd(sg[1][1], sg[2][1]), RMul(2, r.params[k]), "1e-9", "1e-9")
               /\ RClose(sg[2][2], RAdd(r.vals[k], RMul(dx, r.diff[k])), "1e-9", "1e-9")
               /\ RClose(sg[1][2], RSub(r.vals[k], RMul(dx, r.diff[k])), "1e-9", "1e-9")
    IN Clause("draw.curve", Len(r.draw) >= 1 /\ Len(r.draw[1]) = Len(r.vals)
                            /\ \A k \in 1..Len(r.vals) : REq(r.draw[1][k][1], r.params[k]) /\ REq(r.draw[1][k][2], r.vals[k]))
       \cup Clause("draw.tangents", \A i \in 2..Len(r.draw) : Len(r.draw[i]) = 2 /\ r.diff # <<>> /\ touch(r.draw[i]))
RealEq(tt) == \A t \in 1..Len(tt) : REq(tt[t], t - 1)
GtBad(c, k) ==
    IF k <= Len(c.vals) THEN GtRow(c, k)
    ELSE Clause("sizes", c.n = c.num /\ Len(c.x[1]) = c.nums)
         \cup Clause("data", /\ Len(c.x) = Len(c.iny) + 1 /\ c.y[1] = <<>> /\ RealEq(c.tt)
                              /\ \A t \in 1..Len(c.iny) : Same(c.y[t + 1], c.iny[t]) /\ REq(c.u[t], c.inu[t]))
         \cup Clause("length", \A i \in 1..3 : LET r == <<c.px0, c.pxn, c.py>>[i] IN Len(r.vals) = Len(c.vals) /\ Len(r.params) = Len(c.vals))
         \cup UNION {GtDraw(c, <<c.px0, c.pxn, c.py>>[i]) : i \in 1..3}

-----------------------------------------------------------------------------
(* emltv: exact smoothing, exact objective                                   *)
Step0 == "0.05"
Moved(th, j, h) == [th EXCEPT ![j] = RAdd(th[j], h)]
Feasible(c, th) == c.bounds = <<>> \/ \A j \in DOMAIN th : RLe(c.bounds[j][1], th[j]) /\ RLe(th[j], c.bounds[j][2])
EmBad(c, k) ==            \* from iterate k to k + 1
    LET old == c.th[k]
        new == c.th[k + 1]
    IN Force(Law(c, old), LAMBDA J :
       Force(Objective(c, new, J.d), LAMBDA q :
         Clause("em.maximum", \A j \in DOMAIN new : \A h \in {Step0, RNeg(Step0)} :
                 LET x == Moved(new, j, h)
                 IN Feasible(c, x) => RLe(Objective(c, x, J.d), RAdd(q, RMul("1e-6", RAdd(1, RAbs(q))))))
         \cup Clause("em.feasible", c.bounds = <<>> \/ \A j \in DOMAIN new : RLe(c.bounds[j][1], RAdd(new[j], "1e-9"))
                                                                  /\ RLe(new[j], RAdd(c.bounds[j][2], "1e-9")))
         \cup Clause("em.likelihood", RLe(J.lp, RAdd(Law(c, new).lp, RMul("1e-5", RAdd(1, RAbs(J.lp))))))))

-----------------------------------------------------------------------------
Last(c) == CASE c.kind = "loop" -> Len(c.ev) [] c.kind = "num" -> 1 [] c.kind = "emltv" -> Len(c.th) - 1 [] c.kind = "gt" -> Len(c.vals) + 1
Init == ci \in 1..Len(Cases) /\ l = 0 /\ s = (IF Cases[ci].kind = "loop" THEN Start(Cases[ci]) ELSE [ph |-> "return"])
Bad(c, k, st) == CASE c.kind = "loop" -> LoopBad(c, st, c.ev[k])
                   [] c.kind = "num" -> NumBad(c)
                   [] c.kind = "emltv" -> EmBad(c, k)
                   [] c.kind = "gt" -> GtBad(c, k)
Step == /\ Case.exc = "" /\ l < Last(Case)
        /\ l' = l + 1 /\ ci' = ci
        /\ Report(Case, l + 1, Bad(Case, l + 1, s))
        /\ s' = IF Case.kind = "loop" THEN Ev(LoopNext(Case, s, Case.ev[l + 1])) ELSE s
Finish == /\ IF Case.exc # "" THEN l = 0 ELSE l = Last(Case)
          /\ (Case.exc # "" => Report(Case, 0, {"exc"}))
          /\ (Case.exc = "" /\ ~Finished(Case, s) => Report(Case, l, {"order"}))
          /\ Done(Case, l)
          /\ l' = 99999 /\ UNCHANGED <<ci, s>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
