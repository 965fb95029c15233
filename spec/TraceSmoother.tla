---------------------------- MODULE TraceSmoother ----------------------------
(***************************************************************************)
(* Validates recorded smoothing runs, and the empirical laws of repeated    *)
(* runs, against Smoother.                                                  *)
(***************************************************************************)
EXTENDS Smoother, Trace

VARIABLES ci, l
vars == <<ci, l>>
C == Cases[ci]

Indices == {"full", "rs", "rsas", "mcmc", "ancestor"}

IdIndex(c, t, d) == CHOOSE i \in 1..c.N : c.st[t + 1].id[i] = d
IsFiltered(c, t, d) == \E i \in 1..c.N : c.st[t + 1].id[i] = d

WellFormed(c) ==
    /\ c.shape[1] = c.T /\ c.shape[2] = c.M /\ c.len = c.T
    /\ Len(c.x) = c.T /\ \A k \in 1..c.T : Len(c.x[k]) = c.M /\ \A j \in 1..c.M : c.x[k][j] \in 0..(c.m.K - 1)

Iota(n) == [i \in 1..n |-> i - 1]

(* storage may be longer than the data set; there is no input at the end *)
SameSignals(c, u, y, tt) ==
    /\ Len(u) >= c.T - 1 /\ SubSeq(u, 1, c.T - 1) = SubSeq(c.u, 1, c.T - 1)
    /\ Len(y) >= c.T /\ SubSeq(y, 1, c.T) = c.y
    /\ Len(tt) >= c.T /\ SubSeq(tt, 1, c.T) = Iota(c.T)

(* the calls of the model's sample_smooth during backward simulation *)
CallBad(c, r) ==
    LET t == r.t
        me == c.sid[t + 1]
    IN Clause("calls.time", t \in 0..(c.T - 1) /\ r.np = t /\ r.nf = c.T - 1 - t)
       \cup Clause("calls.part", r.ids = me)
       \cup Clause("calls.parents", t > 0 => r.pid =
                [j \in 1..c.M |-> c.st[t].id[c.st[t + 1].anc[IdIndex(c, t, me[j])] + 1]])
       \cup Clause("calls.future", t < c.T - 1 => r.fid = c.sid[t + 2])
       \cup Clause("calls.signals", SameSignals(c, r.u, r.y, r.tt))

(* what history dependent models are handed by the Metropolis-Hastings      *)
(* smoothers: everything up to the time in question, in order              *)
HistoryBad(c, k) ==
    LET n == k.lt
        seq(a, b, len) == Len(a) = len /\ a = SubSeq(b, 1, len)
    IN IF n \notin 0..(c.T - 1) THEN {"calls.past"}
       ELSE CASE k.f = "noise" -> Clause("calls.noise", seq(k.u, c.u, n) /\ seq(k.t, Iota(c.T), n))
              [] k.f = "update" -> Clause("calls.update", seq(k.u, c.u, n) /\ seq(k.t, Iota(c.T), n)
                                          /\ seq(k.y, c.y, n) /\ k.ids = k.par)
              [] k.f = "measure" -> Clause("calls.measure", seq(k.t, Iota(c.T), n + 1) /\ seq(k.y, c.y, n + 1))

(* A model may post-process the smoothed trajectories: once, when they are   *)
(* complete, and what it hands back is the result. Before every pass of      *)
(* MHIPS it may recover its filtering statistics, the pass works on those.   *)
HookBad(c) ==
    Clause("hook.post", /\ Len(c.posts) = 1
                        /\ c.posts[1].len = c.T /\ c.posts[1].full
                        /\ c.posts[1].w = [k \in 1..c.T |-> c.M]
                        /\ c.posts[1].ids = c.sid
                        /\ c.postn = [k \in 1..c.T |-> [j \in 1..c.M |-> 1]])
    \cup (IF c.method \notin {"mhips", "mhips_reduced"} THEN Clause("hook.pre", c.npre = 0)
          ELSE Clause("hook.pre", c.npre = c.R)
               \cup Clause("hook.pass", \A k \in 1..Len(c.calls) :
                        \A j \in 1..Len(c.calls[k].pass) : c.calls[k].pass[j] = c.calls[k].now))

RunBad(c) ==
    IF ~WellFormed(c) THEN {"shape"}
    ELSE Clause("signals", SameSignals(c, c.su, c.sy, c.stt))
         \cup Clause("history", c.after = [k \in 1..c.T |-> c.st[k].dig])
         \cup Clause("readout", c.x = c.tx /\ c.sid = c.tid)
         \cup (IF c.hook THEN HookBad(c) ELSE {})
         \* every consecutive pair is possible
         \cup Clause("support", \A k \in 1..(c.T - 1) : \A j \in 1..c.M :
                    RFinite(LT(c.m, c.u[k], k - 1, c.x[k][j], c.x[k + 1][j])))
         \cup (IF c.method \notin Indices
               THEN UNION {HistoryBad(c, c.calls[k]) : k \in 1..Len(c.calls)}
               ELSE IF ~\A k \in 1..c.T : \A j \in 1..c.M : IsFiltered(c, k - 1, c.sid[k][j])
               THEN {"filtered"}
               ELSE LET ix == [k \in 1..c.T |-> [j \in 1..c.M |-> IdIndex(c, k - 1, c.sid[k][j])]]
                        fin == [i \in 1..c.N |-> Cardinality({j \in 1..c.M : ix[c.T][j] = i})]
                    IN Clause("filtered", \A k \in 1..c.T : \A j \in 1..c.M :
                            c.x[k][j] = c.st[k].x[ix[k][j]] /\ RFinite(c.st[k].w[ix[k][j]]))
                       \cup Clause("final", Systematic(fin, Probs(c.st[c.T].w), c.M))
                       \cup Clause("genealogy", (c.method = "ancestor" \/ (c.method = "mcmc" /\ c.R = 0)) =>
                            \A k \in 1..(c.T - 1) : \A j \in 1..c.M : ix[k][j] = Par(c, k, ix[k + 1][j]))
                       \cup UNION {CallBad(c, c.rec[k]) : k \in 1..Len(c.rec)})

-----------------------------------------------------------------------------
Occ(c, j, P(_)) == ISum([k \in 1..Len(c.hist) |-> IF P(c.hist[k].p) THEN c.hist[k].f[j] ELSE 0])

KernelBad(c) ==
    LET ok == \A k \in 1..Len(c.hist) : \A t \in 1..c.T : c.hist[k].p[t] \in 0..(c.N - 1)
        ctx(t) == IF t + 2 <= c.T - 1 THEN {<<c.hist[k].p[t + 2], c.hist[k].p[t + 3]>> : k \in 1..Len(c.hist)}
                  ELSE {<<c.hist[k].p[t + 2], -1>> : k \in 1..Len(c.hist)}
        same(p, t, x) == p[t + 2] = x[1] /\ (x[2] = -1 \/ p[t + 3] = x[2])
    IN IF ~ok THEN {"law.range"}
       ELSE Clause("law.final", LET p == Probs(c.st[c.T].w) IN
                    /\ \A k \in 1..Len(c.fin) : Systematic(c.fin[k].c, p, c.M)
                    /\ Unbiased(c.fin, p, c.M))
            \cup UNION {UNION {
                    LET pr == Ev(KernelProbs(c, t, x[1] + 1, x[2] + 1))
                        occ == Ev([j \in 1..c.M |->
                                 <<Occ(c, j, LAMBDA p : same(p, t, x)),
                                   Ev([i \in 1..c.N |-> Occ(c, j, LAMBDA p : same(p, t, x) /\ p[t + 1] = i - 1)])>>])
                    IN Clause("law.support", \A j \in 1..c.M : \A i \in 1..c.N :
                            REq(pr[i], 0) => occ[j][2][i] = 0)
                       \cup Clause("law.kernel", \A j \in 1..c.M : \A i \in 1..c.N :
                            FreqOK(occ[j][2][i], occ[j][1], pr[i]))
                    : x \in ctx(t)} : t \in 0..(c.T - 2)}

(* events of a path: the whole path, one state, two neighbouring states *)
Events(c) == [t : {0}, x : PathSet(c)]
              \cup [t : 1..c.T, x : [1..1 -> 0..(c.m.K - 1)]]
              \cup [t : 1..(c.T - 1), x : [1..2 -> 0..(c.m.K - 1)]]
Matches(e, p) == IF e.t = 0 THEN \A k \in DOMAIN e.x : p[k] = e.x[k]
                 ELSE \A k \in DOMAIN e.x : p[e.t + k - 1] = e.x[k]

RECURSIVE SetSum(_, _)
SetSum(f, S) == IF S = {} THEN 0 ELSE LET a == CHOOSE a \in S : TRUE IN RAdd(f[a], SetSum(f, S \ {a}))

PathBad(c) ==
    LET law == Ev(PathLaw(c))
        exact == c.N = 1 \/ c.M = 1 \/ c.dom
        ok == \A k \in 1..Len(c.hist) : \A t \in 1..c.T : c.hist[k].p[t] \in 0..(c.m.K - 1)
        pe(e) == SetSum(law, {p \in DOMAIN law : Matches(e, p)})
        Fits(e) == LET p == Ev(pe(e))
                       f == Ev([j \in 1..c.M |-> Occ(c, j, LAMBDA q : Matches(e, q))])
                   IN IF exact THEN \A j \in 1..c.M : FreqOK(f[j], c.n, p)
                      ELSE FreqOKM(ISum(f), c.n, c.M, p)
    IN IF ~ok THEN {"law.range"}
       ELSE Clause("law.total", RClose(SetSum(law, DOMAIN law), 1, "1e-9", "1e-9"))
            \cup Clause("law.support", \A k \in 1..Len(c.hist) :
                    ~REq(SetSum(law, {p \in DOMAIN law : Matches([t |-> 0, x |-> c.hist[k].p], p)}), 0))
            \cup Clause("law.path", \A e \in Events(c) : Fits(e))

-----------------------------------------------------------------------------
Bad(c) == IF c.kind = "smooth" THEN RunBad(c)
          ELSE IF c.method \in Indices THEN KernelBad(c) ELSE PathBad(c)

Init == ci \in 1..Len(Cases) /\ l = 0
Step == /\ l = 0
        /\ l' = 1 /\ ci' = ci
        /\ IF C.exc # "" THEN Report(C, 1, {"exc"}) ELSE Report(C, 1, Bad(C))
        /\ Done(C, 1)
Next == Step
Spec == Init /\ [][Next]_vars
=============================================================================
