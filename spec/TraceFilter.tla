---------------------------- MODULE TraceFilter ----------------------------
(***************************************************************************)
(* Validates what the forward filters did, call by call, against Filter.    *)
(***************************************************************************)
EXTENDS Filter, Trace

VARIABLES ci, l, s
vars == <<ci, l, s>>

C == Cases[ci]

-----------------------------------------------------------------------------
(* What is known after a call. hid: particle identities of every stored     *)
(* step, dig: digests of every stored step, uh/yh: the signals so far.      *)
Empty == [len |-> 0, x |-> <<>>, id |-> <<>>, xp |-> <<>>, lw |-> <<>>, off |-> 0, anc |-> <<>>,
          dig |-> <<>>, sd |-> <<>>, hid |-> <<>>, uh |-> <<>>, yh |-> <<>>]

Iota(N) == [i \in 1..N |-> i - 1]

Shape(c, e) ==
    /\ Len(e.x) = c.N /\ Len(e.id) = c.N /\ Len(e.w) = c.N /\ Len(e.anc) = c.N
    /\ e.num = c.N
    /\ \A i \in 1..c.N : e.anc[i] \in 0..(c.N - 1) /\ e.x[i] \in 0..(c.m.K - 1)
    /\ Len(e.dig) = e.len

RefLast(c, i) == c.filter \in Conditional /\ i = c.N

IsRef(c, e, i, t) == e.prov[i].k = "ref" /\ e.prov[i].t = t /\ e.x[i] = c.ref[t + 1]

(* the initial set of particles *)
BadInit(c, e) ==
    Clause("init.source", \A i \in 1..c.N :
        IF RefLast(c, i) THEN TRUE ELSE e.prov[i].k = "init")
    \cup Clause("init.ref", c.filter \in Conditional => IsRef(c, e, c.N, 0))
    \cup Clause("init.distinct", Cardinality({e.id[i] : i \in 1..c.N}) = c.N)
    \cup Clause("init.ancestors", e.anc = Iota(c.N))

(* weights up to a constant; and in absolute terms for the filters that     *)
(* keep track of what they subtracted                                       *)
BadWeights(c, e, exp, absolute) ==
    LET good == LogOK(e.w) /\ SomeFinite(e.w) /\ RFinite(e.off) IN
    IF ~SomeFinite(exp) THEN {} ELSE
    Clause("finite", good)
    \cup (IF ~good THEN {} ELSE
          Clause("weights", SameLogWeights(e.w, exp))
          \cup Clause("normalised", RLe(RMaxSeq(e.w), "1e-9"))
          \cup Clause("offset", absolute =>
                \A i \in 1..c.N : RFinite(exp[i]) =>
                    RClose(RAdd(e.w[i], e.off), exp[i], "1e-9", "1e-6")))

KeepsOffset == {"pf", "sir", "cpf", "cpfas", "pfy"}

(* calls of the non-Markovian interface *)
BadCalls(c, e, o, hid, uh, yh, t) ==
    UNION {LET k == e.calls[j]
               known == SubSeq(hid, 1, Len(k.ids)) = k.ids
           IN CASE k.f \in {"noise", "update"} ->
                     Clause("calls." \o k.f, o.op = "forward" /\ known /\ k.lt = t + 1
                            /\ k.u = SubSeq(uh, 1, t + 1) /\ k.t = Iota(t + 1)
                            /\ k.anc = e.anc
                            /\ (k.f = "update" => k.y = SubSeq(yh, 1, t + 1)))
                [] k.f = "measure" ->
                     Clause("calls.measure", known
                            /\ LET n == IF o.op = "forward" THEN t + 2 ELSE t + 1
                               IN (* the steps before the one that is measured *)
                                  /\ k.lt = n - 1
                                  /\ k.y = SubSeq(yh, 1, n) /\ k.t = Iota(n)
                                  /\ Len(k.u) >= n - 1 /\ SubSeq(k.u, 1, n - 1) = SubSeq(uh, 1, n - 1)
                            /\ k.anc = e.anc)
           : j \in 1..Len(e.calls)}

-----------------------------------------------------------------------------
MeasureBad(c, e, p, o) ==
    LET t == p.len - 1
    IN Clause("len", e.len = p.len)
       \cup Clause("ret", e.ret = "none")
       \cup Clause("particles", e.x = p.x /\ e.id = p.id /\ e.anc = p.anc)
       \cup Clause("history", SubSeq(e.dig, 1, e.len - 1) = SubSeq(p.dig, 1, p.len - 1))
       \cup BadWeights(c, e, Ev([i \in 1..c.N |->
                RAdd(MeasureLogW(c.m, p.lw, p.xp, p.x, o.y, t)[i], p.off)]), c.filter \in KeepsOffset)
       \cup BadCalls(c, e, o, p.hid, p.uh, [p.yh EXCEPT ![t + 1] = o.y], t)

(* the first measurement when particles are proposed from it *)
MeasureYBad(c, e, o) ==
    Clause("len", e.len = 1)
    \cup Clause("ret", e.ret = "none")
    \cup Clause("init.ancestors", e.anc = Iota(c.N))
    \cup Clause("init.source", \A i \in 1..c.N : RefLast(c, i) \/
                (e.prov[i].k = "py" /\ e.prov[i].y = o.y /\ e.prov[i].t = 0))
    \cup Clause("init.ref", c.filter \in Conditional => IsRef(c, e, c.N, 0))
    \cup BadWeights(c, e, UniformLogW(c.N), FALSE)

FreeCounts(c, e) ==
    LET n == IF c.filter \in Conditional THEN c.N - 1 ELSE c.N
    IN [i \in 1..c.N |-> Cardinality({k \in 1..n : e.anc[k] = i - 1})]

BadSource(c, e, p, o, i) ==
    LET t == p.len - 1
        f == c.filter
        v == e.prov[i]
        a == e.anc[i] + 1
    IN IF RefLast(c, i) THEN Clause("ref", IsRef(c, e, i, t + 1))
       ELSE IF f \in FromMeasurement
            THEN Clause("source", v.k = "py" /\ v.y = o.y /\ v.t = t + 1)
       ELSE IF f \in SirLike
            THEN IF v.k # "qs" THEN {"source"}
                 ELSE Clause("parent", v.p = p.id[a])
                      \cup Clause("input", v.u = o.u /\ v.t = t /\ v.y = o.y)
       ELSE IF v.k # "upd" THEN {"source"}
            ELSE Clause("parent", v.p = p.id[a] /\ v.px = p.x[a])
                 \cup Clause("input", v.u = o.u /\ v.t = t)
                 \cup Clause("noise", v.np = p.id[a] /\ v.nu = o.u /\ v.nt = t)
                 \cup Clause("moved", e.x[i] = (v.px + v.v) % c.m.K
                                      /\ MoveOK(c.m, f, o.u, o.y, t, v.px, e.x[i]))

(* Ties that floating point arithmetic cannot miss: a power of two of equal *)
(* weights, the others zero, and a threshold that is a multiple of 1/4.     *)
TieChoices(c, lw) ==
    LET live == {i \in DOMAIN lw : RFinite(lw[i])}
        n == Cardinality(live)
        q == RMul(4, c.res)
    IN IF c.filter \in {"pf", "sir", "pfy"} /\ n \in {1, 2, 4, 8, 16} /\ (\A i, j \in live : REq(lw[i], lw[j]))
          /\ REq(q, RFloor(q)) /\ REq(RMul(c.res, c.N), n)
       THEN {FALSE}
       ELSE TriggerChoices(c.filter, lw, c.res, c.N)

ForwardBad(c, e, p, o) ==
    LET t == p.len - 1
        f == c.filter
        rw == ResamplingLogW(c.m, f, p.lw, p.x, o.u, o.y, t)
        res == e.ret = "true"
        exp == ForwardLogW(c.m, f, p.lw, p.xp, p.x, res, e.anc, e.x, o.u, o.y, t)
        base == IF res THEN RNeg(RLog(c.N)) ELSE 0
    IN Clause("len", e.len = p.len + 1)
       \cup Clause("ret", e.ret \in {"true", "false"})
       \cup Clause("trigger", res \in (IF c.ties THEN TieChoices(c, rw) ELSE TriggerChoices(f, rw, c.res, c.N)))
       \cup (IF res THEN Clause("counts", Systematic(FreeCounts(c, e), Probs(rw),
                                  IF f \in Conditional THEN c.N - 1 ELSE c.N))
                    ELSE Clause("identity", e.anc = Iota(c.N)))
       \cup Clause("cpf.ancestor", f = "cpf" => e.anc[c.N] = c.N - 1)
       \cup Clause("as.ancestor", f \in AncestorSampling =>
                RFinite(ReferenceAncestorLogW(c.m, f, p.lw, p.xp, p.x, o.u, t, c.ref[t + 2])[e.anc[c.N] + 1]))
       \cup UNION {BadSource(c, e, p, o, i) : i \in 1..c.N}
       \cup BadWeights(c, e, Ev([i \in 1..c.N |-> RAdd(exp[i], base)]), f \in KeepsOffset)
       \cup Clause("history", SubSeq(e.dig, 1, p.len) = p.dig)
       \cup BadCalls(c, e, o, p.hid, Append(p.uh, o.u), Append(p.yh, o.y), t)

(* smoothing, also in the middle of a run: it leaves the filter alone and   *)
(* keeps the data that led to it                                            *)
SmoothBad(c, e, p) ==
    Clause("history", e.dig = p.dig) \cup Clause("len", e.len = p.len)
    \cup UNION {LET q == e.st[k]
                IN Clause("smooth.data", q.len = p.len /\ q.u = p.uh /\ q.y = p.yh /\ q.t = Iota(p.len))
                : k \in 1..Len(e.st)}

(* estimates handed out earlier stay as they are *)
KeptBad(e, p) == Clause("smooth.kept", SubSeq(e.sd, 1, Len(p.sd)) = p.sd)

-----------------------------------------------------------------------------
(* the state before the first call that shows it *)
Start(c, e) ==
    [Empty EXCEPT !.len = 1, !.x = e.x, !.id = e.id, !.xp = [i \in 1..c.N |-> -1], !.lw = UniformLogW(c.N),
                  !.anc = Iota(c.N), !.hid = <<e.id>>, !.yh = <<Missing>>]

Before(c, k, p) ==
    IF p.len > 0 THEN p
    ELSE LET e == c.ev[k]
         IN IF e.first # <<>> THEN [Start(c, e.first[1]) EXCEPT !.dig = e.first[1].dig,
                                        !.dig = SubSeq(e.first[1].dig, 1, 1)]
            ELSE Start(c, e)

(* When nothing explains the measurements any longer - no particle, or no   *)
(* ancestor of the reference, has a positive weight - the filters are       *)
(* undefined, and the rest of the run is not judged.                        *)
DeadBefore(c, k, p) ==
    LET o == c.ops[k]  t == p.len - 1
    IN /\ o.op = "forward" /\ p.len > 0
       /\ \/ ~SomeFinite(ResamplingLogW(c.m, c.filter, p.lw, p.x, o.u, o.y, t))
          \/ c.filter \in AncestorSampling /\
                ~SomeFinite(ReferenceAncestorLogW(c.m, c.filter, p.lw, p.xp, p.x, o.u, t, c.ref[t + 2]))
DeadAfter(c, k, p) ==
    LET e == c.ev[k]  o == c.ops[k]  b == Before(c, k, p)  t == b.len - 1
    IN CASE o.op = "smooth" -> FALSE
         [] o.op = "measure" -> c.filter \notin FromMeasurement /\
                ~SomeFinite(MeasureLogW(c.m, b.lw, b.xp, b.x, o.y, t))
         [] o.op = "forward" -> DeadBefore(c, k, b) \/
                ~SomeFinite(ForwardLogW(c.m, c.filter, b.lw, b.xp, b.x, e.ret = "true", e.anc, e.x, o.u, o.y, t))

EventBad(c, k, p) ==
    LET e == c.ev[k]  o == c.ops[k]
    IN IF ~Shape(c, e) THEN {"shape"}
       ELSE IF e.first # <<>> /\ ~(Len(e.first[1].x) = c.N /\ Len(e.first[1].w) = c.N /\ Len(e.first[1].anc) = c.N)
            THEN {"shape"}
       ELSE (IF p.len = 0 /\ e.first # <<>>
             THEN BadInit(c, e.first[1]) \cup
                  BadWeights(c, e.first[1], UniformLogW(c.N), TRUE) ELSE {})
            \cup KeptBad(e, p) \cup
            CASE o.op = "smooth" -> SmoothBad(c, e, p)
              [] o.op = "forward" /\ DeadBefore(c, k, Before(c, k, p)) -> {}
              [] o.op = "measure" /\ c.filter \in FromMeasurement -> MeasureYBad(c, e, o)
              [] o.op = "measure" /\ c.filter \notin FromMeasurement ->
                    MeasureBad(c, e, Before(c, k, p), o)
                    \cup (IF p.len = 0 THEN BadInit(c, e) ELSE {})
              [] OTHER -> ForwardBad(c, e, Before(c, k, p), o)

After(c, k, p) ==
    LET e == c.ev[k]  o == c.ops[k]  b == Before(c, k, p)
    IN IF ~Shape(c, e) THEN [p EXCEPT !.len = -1]
       ELSE IF DeadAfter(c, k, p) THEN [p EXCEPT !.len = -2]
       ELSE [len |-> e.len, x |-> e.x, id |-> e.id,
             xp |-> IF o.op = "forward" THEN [i \in 1..c.N |-> b.x[e.anc[i] + 1]] ELSE b.xp,
             lw |-> e.w, off |-> e.off, anc |-> e.anc,
             dig |-> e.dig, sd |-> e.sd,
             hid |-> IF o.op = "forward" THEN Append(b.hid, e.id) ELSE IF p.len = 0 THEN <<e.id>> ELSE b.hid,
             uh |-> IF o.op = "forward" THEN Append(b.uh, o.u) ELSE b.uh,
             yh |-> CASE o.op = "forward" -> Append(b.yh, o.y)
                      [] o.op = "measure" -> [b.yh EXCEPT ![Len(b.yh)] = o.y]
                      [] OTHER -> b.yh]

-----------------------------------------------------------------------------
(* laws of the random choices, from repeated runs *)
FlawBad(c) ==
    LET f == c.filter
        rw == ResamplingLogW(c.m, f, c.w, c.x, c.u, c.y, c.t)
        ch == TriggerChoices(f, rw, c.res, c.N)
        nf == IF f \in Conditional THEN c.N - 1 ELSE c.N
        p == Probs(rw)
        ref == ReferenceAncestorLogW(c.m, f, c.w, c.xp, c.x, c.u, c.t, c.ref[c.t + 2])
    IN IF ~(LogOK(c.w) /\ SomeFinite(c.w)) THEN {"finite"}
       ELSE IF ~SomeFinite(rw) \/ (f \in AncestorSampling /\ ~SomeFinite(ref)) THEN {}   \* dead
       ELSE
       Clause("trigger", (ch = {TRUE} => c.nres = c.n) /\ (ch = {FALSE} => c.nres = 0))
       \cup (IF ch = {TRUE}
             THEN Clause("counts", \A k \in 1..Len(c.cnts) :
                            Len(c.cnts[k].c) = c.N /\ Systematic(c.cnts[k].c, p, nf))
                  \cup Clause("unbiased", (\A k \in 1..Len(c.cnts) : Len(c.cnts[k].c) = c.N)
                                          => Unbiased(c.cnts, p, nf))
             ELSE {})
       \cup Clause("cpf.ancestor", f = "cpf" => c.last[c.N] = c.n)
       \cup (IF f \in AncestorSampling
             THEN LET q == Probs(ref)
                  IN Clause("as.law", \A i \in 1..c.N : FreqOK(c.last[i], c.n, q[i]))
             ELSE {})

SampleBad(c) ==
    LET N == Len(c.w)
        p == IF c.via = "sample" THEN Normalise(c.w) ELSE Probs(c.w)
        proper(k) == Len(c.cnts[k].c) = N + 1 /\ c.cnts[k].c[N + 1] = 0
        h == [k \in 1..Len(c.cnts) |-> [c |-> SubSeq(c.cnts[k].c, 1, N), f |-> c.cnts[k].f]]
    IN IF \E k \in 1..Len(c.cnts) : ~proper(k) THEN {"sample.range"}
       ELSE Clause("sample.systematic", \A k \in 1..Len(h) : Systematic(h[k].c, p, c.n))
            \cup Clause("sample.unbiased", c.reps >= 100 => Unbiased(h, p, c.n))
            \cup Clause("sample.flags", c.flags = <<>>)
            \cup Clause("sample.equal", \A k \in 1..Len(c.post) :
                    Len(c.post[k]) = c.n /\ \A i \in 1..c.n :
                        RClose(c.post[k][i], RNeg(RLog(c.n)), "1e-9", "1e-9"))

(* the n most likely particles: nothing left out outweighs anything chosen *)
BestBad(c) ==
    LET N == Len(c.w)
        n == IF c.n = 0 THEN 1 ELSE c.n
        want == IF n > N THEN N ELSE n
    IN IF ~(Len(c.ind) = want /\ \A k \in 1..want : c.ind[k] \in 0..(N - 1)) THEN {"best.shape"}
       ELSE LET S == {c.ind[k] + 1 : k \in 1..want}
            IN Clause("best.distinct", Cardinality(S) = want)
               \cup Clause("best.largest", \A i \in S : \A j \in (1..N) \ S : RLe(c.w[j], c.w[i]))

NeffBad(c) == Clause("neff", RFinite(c.neff) /\ RClose(c.neff, Neff(c.w), "1e-9", 0))

-----------------------------------------------------------------------------
OneShot(c) == c.kind # "filter"
Last(c) == IF OneShot(c) THEN 1 ELSE Len(c.ev)

Init == ci \in 1..Len(Cases) /\ l = 0 /\ s = Empty

Finish == /\ l = Last(C)
          /\ Report(C, l, IF C.exc = "" \/ s.len = -2 THEN {}
                          ELSE IF ~OneShot(C) /\ s.len >= 0 /\ l < Len(C.ops) /\ DeadBefore(C, l + 1, s) THEN {}
                          ELSE {"exc"})
          /\ Done(C, l)
          /\ l' = l + 1 /\ UNCHANGED <<ci, s>>

Step == /\ l < Last(C)
        /\ l' = l + 1
        /\ ci' = ci
        /\ IF OneShot(C)
           THEN /\ s' = s
                /\ IF C.exc # "" THEN TRUE
                   ELSE Report(C, 1, CASE C.kind = "flaw" -> FlawBad(C)
                                       [] C.kind = "sample" -> SampleBad(C)
                                       [] C.kind = "best" -> BestBad(C)
                                       [] C.kind = "neff" -> NeffBad(C))
           ELSE IF s.len < 0 THEN s' = s
           ELSE LET b == Ev(EventBad(C, l + 1, s))
                IN Report(C, l + 1, b) /\ s' = After(C, l + 1, s)

Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
