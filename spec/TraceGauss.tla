----------------------------- MODULE TraceGauss -----------------------------
(***************************************************************************)
(* Recorded behaviour of the Gaussian model classes.                        *)
(*   ltv    a filter and smoother run of a linear model; the state of the   *)
(*          specification is the joint law of z_0, .., z_t given y_0, .., y_t*)
(*   calls  single calls of model methods on arbitrary particles            *)
(*   run    filter (and smoother) runs of Rao-Blackwellized models          *)
(*   grad   values and gradients of the EM objective                        *)
(***************************************************************************)
EXTENDS GaussModels, Trace

VARIABLES ci, l, s
vars == <<ci, l, s>>
C == Cases[ci]

RT == "1e-6"
AT == "1e-6"
Close(x, y) == RClose(x, y, RT, AT)
VOK(x, y) == VClose(x, y, RT, AT)

Xi(m, r) == SubSeq(r, 1, m.lxi)
ZOf(m, r) == SubSeq(r, m.lxi + 1, m.lxi + m.lz)
POf(m, r) == ToMat(SubSeq(r, m.lxi + m.lz + 1, m.lxi + m.lz + m.lz * m.lz), m.lz)
MOf(m, r) == LET o == m.lxi + m.lz + m.lz * m.lz IN ToMat(SubSeq(r, o + 1, o + m.lz * m.lz), m.lz)
Bel(m, r) == Normal(ZOf(m, r), POf(m, r))
LenFilt(m) == m.lxi + m.lz + m.lz * m.lz
BelOK(m, r, d) == DClose(d, ZOf(m, r), POf(m, r))

-----------------------------------------------------------------------------
(* random numbers: n stacked samples with the law N(mean, S)                 *)
LawBad(e, mean, S) ==
    LET D == Len(mean)
        av(i) == RDiv(e.sum[i], e.n)
        sd(i) == RSqrt(RMax2(0, S[i][i]))
        c(i, j) == RAdd(RSub(RSub(RDiv(e.sum2[i][j], e.n), RMul(mean[i], av(j))), RMul(av(i), mean[j])),
                        RMul(mean[i], mean[j]))
        tolc(i, j) == RSqrt(RDiv(RAdd(RMul(S[i][i], S[j][j]), RSq(S[i][j])), e.n))
    IN IF Len(e.sum) # D THEN {"law.shape"}
       ELSE Clause("law.mean", \A i \in 1..D : RLe(RAbs(RSub(av(i), mean[i])),
                        RAdd("1e-8", RMul("6.5", RDiv(sd(i), RSqrt(e.n))))))
            \cup Clause("law.cov", \A i \in 1..D : \A j \in 1..i :
                        RLe(RAbs(RSub(c(i, j), S[i][j])), RAdd("1e-7", RMul("6.5", tolc(i, j)))))
            \cup Clause("law.normal", \A i \in 1..D : RLt("1e-6", S[i][i]) =>
                        /\ FreqOK(e.q[i][1], e.n, "0.5")
                        /\ FreqOK(e.q[i][2], e.n, "0.95"))

RECURSIVE StackV(_)
StackV(vs) == IF Len(vs) = 1 THEN vs[1] ELSE vs[1] \o StackV(Tail(vs))
RECURSIVE BlockDiag(_)
BlockDiag(ms) ==
    IF Len(ms) = 1 THEN ms[1]
    ELSE LET r == Ev(BlockDiag(Tail(ms)))
         IN Block(ms[1], Zeros(Rows(ms[1]), Cols(r)), Zeros(Rows(r), Cols(ms[1])), r)
StackLawBad(e, dists) ==
    Force(Ev(dists), LAMBDA ds :
    Force(StackV([i \in 1..Len(ds) |-> ds[i].m]), LAMBDA mean :
    Force(BlockDiag([i \in 1..Len(ds) |-> ds[i].S]), LAMBDA S : LawBad(e, mean, S))))

-----------------------------------------------------------------------------
(* linear time varying models                                                *)
LtvStart(m) == LET a == At(<<>>, 0, 0, <<>>) IN Normal(VF(m.z0, a), MF(m.P0, a))
LtvStep(c, d, t) ==          \* from the joint law of z_0..z_(t-1) to that of z_0..z_t, and the measurement
    LET m == c.m
        n == m.lz
        a == At(<<>>, IF t = 0 THEN 0 ELSE c.u[t], t - 1, <<>>)
        b == At(<<>>, 0, t, <<>>)
        pad(A) == IF t = 0 THEN A ELSE HStack(Zeros(Rows(A), n * t), A)
        padA(A) == IF t = 1 THEN A ELSE HStack(Zeros(Rows(A), n * (t - 1)), A)
        x == IF t = 0 THEN d ELSE Extend(d, padA(MF(m.Az, a)), VF(m.fz, a), MF(m.Qz, a))
    IN IF c.y[t + 1] = <<>> THEN x
       ELSE Observe(x, pad(MF(m.C, b)), VF(m.h, b), MF(m.R, b), YShift(m, c.y[t + 1])).d

LtvFilterBad(c, d, t) ==
    LET m == c.m
        z == Marg(d, Range(m.lz * t + 1, m.lz))
    IN IF ~(Len(c.st[t + 1]) = c.N /\ \A i \in 1..c.N : Len(c.st[t + 1][i]) >= m.lz + m.lz * m.lz) THEN {"shape"}
       ELSE Clause("filter.mean", \A i \in 1..c.N : VOK(ZOf(m, c.st[t + 1][i]), z.m))
            \cup Clause("filter.cov", \A i \in 1..c.N : MClose(POf(m, c.st[t + 1][i]), z.S, RT, AT))
            \cup Clause("weights", SameLogWeights(c.w[t + 1], [i \in 1..c.N |-> 0]))

LtvSmoothBad(c, d) ==
    LET m == c.m  T == Len(c.st)
    IN IF c.method = "" THEN {}
       ELSE IF ~(Len(c.sm) = T /\ \A k \in 1..T : Len(c.sm[k]) = c.M
                 /\ \A j \in 1..c.M : Len(c.sm[k][j]) = m.lz + 2 * m.lz * m.lz) THEN {"shape"}
       ELSE UNION {Clause("smooth.mean", \A j \in 1..c.M : VOK(ZOf(m, c.sm[k][j]), ZAt(m, d, k).m))
                   \cup Clause("smooth.cov", \A j \in 1..c.M : MClose(POf(m, c.sm[k][j]), ZAt(m, d, k).S, RT, AT))
                   \cup Clause("smooth.lag", k < T => \A j \in 1..c.M :
                                     MClose(MOf(m, c.sm[k][j]), LagCov(m, d, k), RT, AT))
                  : k \in 1..T}

(* single calls on beliefs of any origin *)
LtvCallBad(m, e) ==
    LET n == Len(e.parts)
        a == At(<<>>, e.u, e.t, <<>>)
        b == At(<<>>, 0, e.t, <<>>)
        d(i) == Bel(m, e.parts[i])
        rows == IF e.op = "smooth" THEN m.lz + 2 * m.lz * m.lz ELSE LenFilt(m)
    IN IF ~(Len(e.rows) = n /\ \A i \in 1..n : Len(e.rows[i]) = rows) THEN {e.op \o ".shape"}
       ELSE CASE e.op = "update" -> Clause("update", \A i \in 1..n :
                    BelOK(m, e.rows[i], Push(d(i), MF(m.Az, a), VF(m.fz, a), MF(m.Qz, a))))
         [] e.op = "measure" ->
              Force(Ev([i \in 1..n |-> Observe(d(i), MF(m.C, b), VF(m.h, b), MF(m.R, b), YShift(m, e.y))]), LAMBDA r :
                 Clause("measure.lik", Len(e.vals) = n /\ \A i \in 1..n : Close(e.vals[i], r[i].lp))
                 \cup Clause("measure.belief", \A i \in 1..n : BelOK(m, e.rows[i], r[i].d)))
         [] e.op = "smooth" -> Clause("smooth.call", \A i \in 1..n :
              IF e.last THEN BelOK(m, e.rows[i], d(i))
              ELSE Force(Smoothed(d(i), MF(m.Az, a), VF(m.fz, a), MF(m.Qz, a), Bel(m, e.next[i])), LAMBDA r :
                     BelOK(m, e.rows[i], r.d) /\ MClose(MOf(m, e.rows[i]), r.M, RT, AT)))

-----------------------------------------------------------------------------
(* single calls                                                              *)
AA(e, r, m, t) == At(Xi(m, r), e.u, t, <<>>)

XiLaw(m) == LET a == At(<<>>, 0, 0, <<>>) IN Normal(VF(m.xi0, a), MF(m.Pxi0, a))

(* v is the log-density of x at the start; with a certain start, 0 there and -inf elsewhere *)
X0OK(m, x, v) ==
    LET d == XiLaw(m) IN
    IF \A i \in 1..m.lxi : \A j \in 1..m.lxi : REq(d.S[i][j], 0)
    THEN IF \A i \in 1..m.lxi : REq(x[i], d.m[i]) THEN REq(v, 0) ELSE v = NegInf
    ELSE Close(v, LogPdf(x, d.m, d.S))

NlgBad(m, e) ==
    LET n == Len(e.parts)
        a(i) == At(e.parts[i], e.u, e.t, <<>>)
        f(i) == VF(m.fxi, a(i))
        lik(x, t, y) == LET b == At(x, 0, t, <<>>) IN LogPdf(y, VF(m.h, b), MF(m.R, b))
        nx(i) == e.next[e.find[i] + 1]
    IN IF e.op \in {"measure", "stage1", "logp_xnext", "logp_x0", "logp_prop", "logp_prop0"} /\ Len(e.vals) # n THEN {e.op \o ".shape"}
       ELSE CASE e.op = "update" -> Clause("update", \A i \in 1..n : VOK(e.rows[i], VAdd(f(i), e.noise[i])))
         [] e.op = "measure" -> Clause("measure", \A i \in 1..n : Close(e.vals[i], lik(e.parts[i], e.t, e.y)))
         [] e.op = "stage1" -> Clause("stage1", \A i \in 1..n : Close(e.vals[i], lik(f(i), e.t + 1, e.y)))
         [] e.op \in {"logp_xnext", "logp_prop"} -> Clause(e.op, \A i \in 1..n : Close(e.vals[i], LogPdf(nx(i), f(i), MF(m.Qxi, a(i)))))
         [] e.op = "logp_max" -> Clause("logp_max", Close(e.val, RMaxSeq([i \in 1..n |-> LogPeak(MF(m.Qxi, a(i)))])))
         [] e.op \in {"logp_x0", "logp_prop0"} -> Clause(e.op, \A i \in 1..n : X0OK(m, e.parts[i], e.vals[i]))
         [] e.op = "noise" -> StackLawBad(e, [i \in 1..n |-> Normal(Vec(Zeros(m.lxi, 1)), MF(m.Qxi, a(i)))])
         [] e.op = "prop" -> StackLawBad(e, [i \in 1..n |-> Normal(f(i), MF(m.Qxi, a(i)))])
         [] e.op = "init" -> StackLawBad(e, [i \in 1..e.k |-> XiLaw(m)])

(* first stage weight of a particle r at time t for the measurement y of t+1 *)
StageOne(m, r, a, t, y) ==
    LET x == VAdd(VF(m.fxi, a), MV(MF(m.Axi, a), ZOf(m, r)))
    IN Force(BeliefNext(m, Bel(m, r), a, x), LAMBDA bn : Measured(m, bn, At(x, 0, t + 1, <<>>), y).lp)

RbBad(m, e) ==
    LET n == Len(e.parts)
        a(i) == AA(e, e.parts[i], m, e.t)
        d(i) == Bel(m, e.parts[i])
        nxi(i) == SubSeq(e.next[e.find[i] + 1], 1, m.lxi)
        nz(i) == SubSeq(e.next[e.find[i] + 1], m.lxi + 1, m.lxi + m.lz)
        pred(i) == IF m.hier THEN VF(m.fxi, a(i)) ELSE VAdd(VF(m.fxi, a(i)), MV(MF(m.Axi, a(i)), ZOf(m, e.parts[i])))
        rowOK(r, xi, b) == VOK(Xi(m, r), xi) /\ BelOK(m, r, b)
        stage(i) == StageOne(m, e.parts[i], a(i), e.t, e.y)
    IN IF "rows" \in DOMAIN e /\ ~(Len(e.rows) = n /\ \A i \in 1..n : Len(e.rows[i]) = LenFilt(m)) THEN {e.op \o ".shape"}
       ELSE IF "vals" \in DOMAIN e /\ Len(e.vals) # n THEN {e.op \o ".shape"}
       ELSE CASE e.op = "update" ->
              Clause("update", \A i \in 1..n : LET x == VAdd(pred(i), e.noise[i])
                                               IN rowOK(e.rows[i], x, BeliefNext(m, d(i), a(i), x)))
         [] e.op = "condpred" -> Clause("condpred", \A i \in 1..n : rowOK(e.rows[i], nxi(i), BeliefNext(m, d(i), a(i), nxi(i))))
         [] e.op = "measure" ->
              Force(Ev([i \in 1..n |-> Measured(m, d(i), AA(e, e.parts[i], m, e.t), e.y)]), LAMBDA r :
                 Clause("measure.lik", \A i \in 1..n : Close(e.vals[i], r[i].lp))
                 \cup Clause("measure.belief", \A i \in 1..n : rowOK(e.rows[i], Xi(m, e.parts[i]), r[i].d)))
         [] e.op = "logp_xnext" -> Clause(e.op, \A i \in 1..n : Close(e.vals[i], LogPNext(m, d(i), a(i), nxi(i), nz(i))))
         [] e.op \in {"single", "logp_prop"} -> Clause(e.op, \A i \in 1..n : Close(e.vals[i], LogPNextXi(m, d(i), a(i), nxi(i))))
         [] e.op = "stage1" -> Clause("stage1", \A i \in 1..n : Close(e.vals[i], stage(i)))
         [] e.op = "logp_max" -> Clause("logp_max", Close(e.val, RMaxSeq([i \in 1..n |-> LogPNextPeak(m, d(i), a(i))])))
         [] e.op = "noise" -> StackLawBad(e, [i \in 1..n |-> Normal(Vec(Zeros(m.lxi, 1)), NextXi(m, d(i), a(i)).S)])
         [] e.op = "prop" -> Clause("prop.belief", Len(e.zrows) = n /\ \A i \in 1..n :
                                  rowOK(e.zrows[i], Xi(m, e.zrows[i]), BeliefNext(m, d(i), a(i), Xi(m, e.zrows[i]))))
              \cup StackLawBad(e, [i \in 1..n |-> Normal(pred(i), NextXi(m, d(i), a(i)).S)])
         [] e.op = "smooth" -> Clause("smooth.xi", e.xiok) \cup
              StackLawBad(e, [i \in 1..n |-> IF e.last THEN d(i) ELSE BeliefBack(m, d(i), a(i), nxi(i), nz(i))])
         [] e.op = "init" -> Clause("init.belief", \A i \in 1..Len(e.zrows) : Len(e.zrows[i]) = LenFilt(m)
                                        /\ BelOK(m, e.zrows[i], Belief0(m, At(Xi(m, e.zrows[i]), 0, 0, <<>>))))
              \cup StackLawBad(e, [i \in 1..e.k |-> XiLaw(m)])

CallBad(m, e) == IF e.exc # "" THEN {"exc"} ELSE IF m.lz = 0 THEN NlgBad(m, e)
                 ELSE IF m.lxi = 0 THEN LtvCallBad(m, e) ELSE RbBad(m, e)

-----------------------------------------------------------------------------
(* filter runs of Rao-Blackwellized (and nonlinear) models, one step each    *)
RunStepBad(c, t) ==
    LET m == c.m
        S == c.st[t + 1]
        N == c.N
        ok(k) == Len(c.st[k].p) = N /\ Len(c.st[k].w) = N /\ Len(c.st[k].anc) = N
                 /\ \A i \in 1..N : Len(c.st[k].p[i]) = LenFilt(m) /\ c.st[k].anc[i] \in 0..(N - 1)
        par(i) == c.st[t].p[S.anc[i] + 1]
        xi(i) == Xi(m, S.p[i])
        pri(i) == IF m.lz = 0 THEN <<>> ELSE IF t = 0 THEN Belief0(m, At(xi(i), 0, 0, <<>>))
                  ELSE BeliefNext(m, Bel(m, par(i)), At(Xi(m, par(i)), c.u[t], t - 1, <<>>), xi(i))
        posterior == Ev([i \in 1..N |-> Force(pri(i), LAMBDA p : IF c.y[t + 1] = <<>> THEN [d |-> p, lp |-> 0]
                                ELSE Measured(m, p, At(xi(i), 0, t, <<>>), c.y[t + 1]))])
        \* what resampling has accounted for already
        ahead(i) == IF c.filter # "apf" \/ c.y[t + 1] = <<>> THEN 0
                    ELSE LET r == par(i)  a == At(Xi(m, r), c.u[t], t - 1, <<>>)
                         IN IF m.lz = 0 THEN LET b == At(VF(m.fxi, a), 0, t, <<>>)
                                             IN LogPdf(c.y[t + 1], VF(m.h, b), MF(m.R, b))
                            ELSE StageOne(m, r, a, t - 1, c.y[t + 1])
        old(i) == IF t = 0 THEN 0 ELSE IF c.resample THEN RNeg(ahead(i)) ELSE c.st[t].w[S.anc[i] + 1]
    IN IF ~(ok(t + 1) /\ (t > 0 => ok(t))) THEN {"shape"}
       ELSE Force(posterior, LAMBDA post :
            Clause("run.belief", m.lz = 0 \/ \A i \in 1..N : BelOK(m, S.p[i], post[i].d))
            \cup Clause("run.weights", LET e == [i \in 1..N |-> RAdd(old(i), post[i].lp)]
                                           a == RMaxSeq(S.w)  b == RMaxSeq(e)
                                       IN LogOK(S.w) /\ SomeFinite(S.w) /\
                                          \A i \in 1..N : RClose(RSub(S.w[i], a), RSub(e[i], b), "1e-6", "1e-5")))

(* smoothed trajectories: the exact conditional law of the linear states     *)
RunSmoothBad(c) ==
    LET m == c.m
        T == Len(c.st)
        us == [k \in 1..T |-> IF k < T THEN c.u[k] ELSE 0]
        bad(j) == Force(Ev([k \in 1..T |-> Xi(m, c.sm[k][j])]), LAMBDA xs :
                  Force(PathLaw(m, xs, us, c.y, <<>>, 1, Belief0(m, At(xs[1], 0, 0, <<>>))), LAMBDA d :
                     Clause("smooth.belief", \A k \in 1..T : BelOK(m, c.sm[k][j], ZAt(m, d, k)))
                     \cup Clause("smooth.lag", \A k \in 1..(T - 1) : MClose(MOf(m, c.sm[k][j]), LagCov(m, d, k), RT, AT))))
    IN IF c.method = "" THEN {}
       ELSE IF ~(Len(c.sm) = T /\ \A k \in 1..T : Len(c.sm[k]) = c.M
                 /\ \A j \in 1..c.M : Len(c.sm[k][j]) = LenFilt(m) + m.lz * m.lz) THEN {"shape"}
       ELSE (IF m.lz = 0 THEN {} ELSE UNION {bad(j) : j \in 1..c.M})
            \cup Clause("smooth.history", c.kept)
            \* every smoothed nonlinear state is one the filter produced
            \cup Clause("smooth.support", c.method \in {"mhips", "mhips_reduced", "mhbp"} \/
                    \A k \in 1..T : \A j \in 1..c.M : \E i \in 1..c.N : VOK(Xi(m, c.sm[k][j]), Xi(m, c.st[k].p[i])))

(* the densities the marginalized smoother computed                          *)
MargBad(c) ==
    LET m == c.m
        T == Len(c.y)
        one(r) ==
          LET k == r.k + 1
              val(i) == LET f == r.find[i] + 1
                            xs == Ev([q \in 1..T |-> IF q < k THEN <<0>> ELSE IF q = k THEN Xi(m, r.parts[i])
                                                  ELSE r.fut[q - k][f]])
                        IN FutureLogP(m, xs, [q \in 1..T |-> IF q < T THEN c.u[q] ELSE 0], c.y, <<>>, k, Bel(m, r.parts[i]), 0)
              I == 1..Len(r.parts)
          IN Len(r.vals) = Len(r.parts) /\ Force(Ev([i \in I |-> val(i)]), LAMBDA e :
                \A i \in I : \A j \in I : (j > i /\ r.find[i] = r.find[j]) =>
                    RClose(RSub(r.vals[i], r.vals[j]), RSub(e[i], e[j]), "1e-5", "1e-5"))
    IN Clause("marginal", \A q \in 1..Len(c.rec) : one(c.rec[q]))

-----------------------------------------------------------------------------
(* single evaluations: what the library takes a particle's belief about its  *)
(* linear states to be is what its whole trajectory says                     *)
RECURSIVE Predicted(_, _, _)
Filtered(c, xs, k, p) == IF c.y[k] = <<>> THEN [d |-> p, lp |-> 0] ELSE Measured(c.m, p, At(xs[k], 0, k - 1, <<>>), c.y[k])
Predicted(c, xs, k) ==
    IF k = 1 THEN Belief0(c.m, At(xs[1], 0, 0, <<>>))
    ELSE Force(Predicted(c, xs, k - 1), LAMBDA p : Force(Filtered(c, xs, k - 1, p), LAMBDA f :
         BeliefNext(c.m, f.d, At(xs[k - 1], c.u[k - 1], k - 2, <<>>), xs[k])))
MoveBad(c, e) ==
    LET m == c.m
        n == Len(e.rows)
        ok == n = Len(e.xs) /\ \A i \in 1..n : Len(e.xs[i]) \in 1..Len(c.y) /\ Len(e.rows[i]) = m.lz + m.lz * m.lz
        one(i) == LET k == Len(e.xs[i])  x == e.xs[i][k]
                      row(r) == x \o r
                      a == At(x, IF k < Len(c.y) THEN c.u[k] ELSE 0, k - 1, <<>>)
                      val == Len(e.vals) = 0 \/ i > Len(e.vals)
                  IN Force(Predicted(c, e.xs[i], k), LAMBDA p : Force(Filtered(c, e.xs[i], k, p), LAMBDA f :
                     CASE e.op = "meas" -> Clause("moves.belief", BelOK(m, row(e.rows[i]), p))
                                           \cup Clause("moves.updated", BelOK(m, row(e.after[i]), f.d))
                                           \cup Clause("moves.lik", Close(e.vals[i], f.lp))
                       [] e.op = "next" -> Clause("moves.filtered", BelOK(m, row(e.rows[i]), f.d))
                                           \cup Clause("moves.next", val \/ Close(e.vals[i],
                                                LogPNext(m, f.d, a, SubSeq(e.next[i], 1, m.lxi), SubSeq(e.next[i], m.lxi + 1, m.lxi + m.lz))))
                       [] e.op = "single" -> Clause("moves.filtered", BelOK(m, row(e.rows[i]), f.d))
                                           \cup Clause("moves.single", Close(e.vals[i], LogPNextXi(m, f.d, a, SubSeq(e.next[i], 1, m.lxi))))
                       [] e.op = "draw" -> Clause("moves.drawn", BelOK(m, row(e.rows[i]), f.d))))
    IN IF ~ok THEN {"moves.shape"} ELSE UNION {one(i) : i \in 1..n}

-----------------------------------------------------------------------------
(* EM objective                                                              *)
(* the terms of the objective as functions of the parameters                 *)
GVal(c, e, th) ==
    LET m == c.m
        n == Len(e.parts)
        a(i) == At(Xi(m, e.parts[i]), e.u, e.t, th)
        d(i) == Bel(m, e.parts[i])
        A(i) == IF m.lxi = 0 THEN MF(m.Az, a(i)) ELSE StackA(m, a(i))
        f(i) == IF m.lxi = 0 THEN VF(m.fz, a(i)) ELSE StackF(m, a(i))
        Q(i) == IF m.lxi = 0 THEN MF(m.Qz, a(i)) ELSE StackQ(m, a(i))
        x0(i) == LET b == At(<<>>, 0, 0, th)
                 IN RAdd(ExpLogX0(m, Xi(m, e.parts[i]), d(i), th),
                         IF m.lxi = 0 THEN 0 ELSE LogPdf(Xi(m, e.parts[i]), VF(m.xi0, b), MF(m.Pxi0, b)))
    IN CASE e.op = "x0" -> RDiv(RSum([i \in 1..n |-> x0(i)]), n)
         [] e.op = "xnext" -> RSum([i \in 1..n |->
                ExpLogNext(A(i), f(i), Q(i), m.lxi, Xi(m, e.next[i]), d(i), Bel(m, e.next[i]), MOf(m, e.parts[i]))])
         [] e.op = "y" -> RSum([i \in 1..n |->
                ExpLogY(MF(m.C, a(i)), VF(m.h, a(i)), MF(m.R, a(i)), d(i), YShift(m, e.y))])

Delta == "1e-10"
Bump(th, j, h) == [th EXCEPT ![j] = RAdd(th[j], h)]
(* plain: values without gradients, one number per particle or their sum *)
GradBad(c, e) ==
    IF e.exc # "" THEN {"exc"}
    ELSE LET k == Len(e.vals)
             g(q, j) == RDiv(RSub(GVal(c, e, Bump(e.th[q], j, Delta)), GVal(c, e, Bump(e.th[q], j, RNeg(Delta)))), RMul(2, Delta))
         IN Force(Ev([q \in 1..k |-> GVal(c, e, e.th[q])]), LAMBDA v :
            Clause("grad." \o e.op \o ".value", \A q \in 2..k :
                    RClose(RSub(e.vals[q], e.vals[1]), RSub(v[q], v[1]), "1e-6", "1e-5"))
            \cup Clause("grad." \o e.op \o ".plain", \A q \in 2..k :
                    RClose(RSub(e.plain[q], e.plain[1]), RSub(v[q], v[1]), "1e-6", "1e-5")))
            \* with and without the gradient
            \cup Clause("grad." \o e.op \o ".same", \A q \in 1..k : RClose(e.vals[q], e.plain[q], "1e-6", "1e-5"))
            \cup Clause("grad." \o e.op \o ".gradient", \A q \in 1..k : Len(e.grads[q]) = Len(e.th[q])
                    /\ \A j \in 1..Len(e.th[q]) : RClose(e.grads[q][j], g(q, j), "1e-6", "1e-5"))

-----------------------------------------------------------------------------
Last(c) == CASE c.kind = "ltv" -> Len(c.st)
             [] c.kind = "calls" -> Len(c.ev)
             [] c.kind = "grad" -> Len(c.ev)
             [] c.kind = "run" -> Len(c.st) + 1
Init == ci \in 1..Len(Cases) /\ l = 0 /\ s = <<>>

Bad(c, k, d) ==
    CASE c.kind = "ltv" -> LtvFilterBad(c, d, k - 1) \cup (IF k = Len(c.st) THEN LtvSmoothBad(c, d) ELSE {})
      [] c.kind = "calls" -> CallBad(c.m, c.ev[k])
      [] c.kind = "grad" -> GradBad(c, c.ev[k])
      [] c.kind = "run" -> IF k <= Len(c.st) THEN (IF c.steps THEN RunStepBad(c, k - 1) ELSE {})
                           ELSE RunSmoothBad(c) \cup MargBad(c) \cup UNION {MoveBad(c, c.mv[q]) : q \in 1..Len(c.mv)}

Step == /\ C.exc = "" /\ l < Last(C)
        /\ l' = l + 1 /\ ci' = ci
        /\ s' = IF C.kind = "ltv" THEN Ev(LtvStep(C, IF l = 0 THEN LtvStart(C.m) ELSE s, l)) ELSE s
        /\ Report(C, l + 1, Bad(C, l + 1, s'))
Finish == /\ IF C.exc # "" THEN l = 0 ELSE l = Last(C)
          /\ (C.exc # "" => Report(C, 0, {"exc"}))
          /\ Done(C, l)
          /\ l' = 99999 /\ UNCHANGED <<ci, s>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
