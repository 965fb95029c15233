---------------------------- MODULE GaussModels ----------------------------
(***************************************************************************)
(* Models with linear Gaussian substructure.                                *)
(*                                                                          *)
(*   xi' = fxi + Axi z + vxi      (vxi, vz) ~ N(0, (Qxi, Qxz; Qxz', Qz))    *)
(*   z'  = fz + Az z + vz                                                   *)
(*   y   = h + C z + e            e ~ N(0, R)                               *)
(*                                                                          *)
(* where every matrix is a function of xi, the input, the time and the      *)
(* parameters: a sum of terms coefficient * matrix. "mlnlg" is the whole,   *)
(* in "hier" xi' does not depend on z (and y carries an extra nonlinear     *)
(* part), "ltv" has no xi, "nlg" no z.                                      *)
(*                                                                          *)
(* A particle of a Rao-Blackwellized filter is a value of xi and a belief   *)
(* about z, a normal distribution.                                          *)
(***************************************************************************)
EXTENDS Gauss

At(xi, u, t, th) == [x |-> xi, u |-> u, t |-> t, p |-> th]

Coef(k, a) ==
    CASE k = "1" -> 1
      [] k = "x1" -> a.x[1]
      [] k = "x2" -> a.x[Len(a.x)]
      [] k = "x11" -> RSq(a.x[1])
      [] k = "u" -> a.u
      [] k = "t" -> a.t % 3
      [] k = "p1" -> a.p[1]
      [] k = "p2" -> a.p[2]
      [] k = "p3" -> a.p[3]
      [] k = "s1" -> IF RLt(0, a.x[1]) THEN 1 ELSE 0
      [] k = "b1" -> RDiv(a.x[1], RAdd(1, RSq(a.x[1])))
      [] k = "q1" -> RMul(a.p[1], a.x[1])
      [] k = "q2" -> RMul(a.p[2], a.x[1])
      [] k = "q3" -> RMul(a.p[3], a.x[1])
      [] k = "r1" -> RMul(a.p[1], RSq(a.x[1]))
      [] k = "r2" -> RMul(a.p[2], RSq(a.x[1]))
      [] k = "r3" -> RMul(a.p[3], RSq(a.x[1]))

RECURSIVE MFFrom(_, _, _)
MFFrom(f, a, i) ==
    LET term == MScale(Coef(f[i].k, a), f[i].m)
    IN IF i = Len(f) THEN term ELSE MAdd(term, MFFrom(f, a, i + 1))
MF(f, a) == MFFrom(f, a, 1)
VF(f, a) == Vec(MF(f, a))

LXi(m) == m.lxi
LZ(m) == m.lz
HasC(m) == m.C # <<>>

(* the stacked linear dynamics of (xi', z') in z *)
StackA(m, a) == VStack(MF(m.Axi, a), MF(m.Az, a))
StackF(m, a) == VF(m.fxi, a) \o VF(m.fz, a)
StackQ(m, a) ==
    LET X == IF m.Qxz = <<>> THEN Zeros(m.lxi, m.lz) ELSE MF(m.Qxz, a)
    IN Block(MF(m.Qxi, a), X, MT(X), MF(m.Qz, a))

(* the joint law of the successor (xi', z') of a particle *)
JointNext(m, d, a) == Push(d, StackA(m, a), StackF(m, a), StackQ(m, a))
XiPart(m) == Range(1, m.lxi)
ZPart(m) == Range(m.lxi + 1, m.lz)

(* the law of xi' and the belief about z' once xi' is known *)
NextXi(m, d, a) == IF m.hier THEN Normal(VF(m.fxi, a), MF(m.Qxi, a)) ELSE Marg(JointNext(m, d, a), XiPart(m))
BeliefNext(m, d, a, xin) ==
    IF m.hier THEN Push(d, MF(m.Az, a), VF(m.fz, a), MF(m.Qz, a))
    ELSE Given(JointNext(m, d, a), ZPart(m), XiPart(m), xin)

(* the belief about z once (part of) its successor is known *)
BeliefBack(m, d, a, xin, zn) ==
    IF m.hier THEN Observe(d, MF(m.Az, a), VF(m.fz, a), MF(m.Qz, a), zn).d
    ELSE Observe(d, StackA(m, a), StackF(m, a), StackQ(m, a), xin \o zn).d

(* z given that its successor has the law n, and cov(z, z') *)
Smoothed(d, A, f, Q, n) ==
    LET p == Push(d, A, f, Q)
        G == MM(MM(d.S, MT(A)), MInv(p.S))
    IN [d |-> Normal(VAdd(d.m, MV(G, VSub(n.m, p.m))), MAdd(d.S, Sandwich(G, MSub(n.S, p.S)))),
        M |-> MM(G, n.S)]

(* the measurement: updated belief and log-likelihood *)
YShift(m, y) == [i \in DOMAIN y |-> RAdd(y[i], m.ysh)]
NonlinLogLik(m, xi, y) ==
    IF m.hier THEN RAdd(RMul(m.mn[1], xi[1]), RMul(m.mn[2], RMul(xi[1], y[1]))) ELSE 0
Measured(m, d, a, y) ==
    IF HasC(m)
    THEN LET r == Observe(d, MF(m.C, a), VF(m.h, a), MF(m.R, a), YShift(m, y))
         IN [d |-> r.d, lp |-> RAdd(r.lp, NonlinLogLik(m, a.x, y))]
    ELSE [d |-> d, lp |-> RAdd(LogPdf(YShift(m, y), VF(m.h, a), MF(m.R, a)), NonlinLogLik(m, a.x, y))]

(* log p(xi', z' | particle) and log p(xi' | particle) *)
LogPNext(m, d, a, xin, zn) ==
    IF m.hier
    THEN LET p == Push(d, MF(m.Az, a), VF(m.fz, a), MF(m.Qz, a))
         IN RAdd(LogPdf(xin, VF(m.fxi, a), MF(m.Qxi, a)), LogPdf(zn, p.m, p.S))
    ELSE LET p == JointNext(m, d, a) IN LogPdf(xin \o zn, p.m, p.S)
LogPNextXi(m, d, a, xin) == LET p == NextXi(m, d, a) IN LogPdf(xin, p.m, p.S)
LogPNextPeak(m, d, a) ==
    IF m.hier
    THEN LET p == Push(d, MF(m.Az, a), VF(m.fz, a), MF(m.Qz, a))
         IN RAdd(LogPeak(MF(m.Qxi, a)), LogPeak(p.S))
    ELSE LogPeak(JointNext(m, d, a).S)

(* the belief about z_0 given xi_0 *)
Belief0(m, a) == Normal(VF(m.z0, a), MF(m.P0, a))

-----------------------------------------------------------------------------
(* The whole linear trajectory given a nonlinear path xs[1..T] and the       *)
(* measurements ys[1..T] (<<>> if missing): the joint law of z_1, .., z_T.   *)
RECURSIVE PathLaw(_, _, _, _, _, _, _)
PathLaw(m, xs, us, ys, th, k, d) ==
    LET n == m.lz
        t == k - 1
        a == At(xs[k], us[k], t, th)
        pad(A) == HStack(Zeros(Rows(A), n * (k - 1)), A)
        e == IF ys[k] = <<>> \/ ~HasC(m) THEN d
             ELSE Observe(d, pad(MF(m.C, a)), VF(m.h, a), MF(m.R, a), YShift(m, ys[k])).d
    IN IF k = Len(xs) THEN e
       ELSE LET x == IF m.hier THEN Extend(e, pad(MF(m.Az, a)), VF(m.fz, a), MF(m.Qz, a))
                     ELSE LET j == Extend(e, pad(StackA(m, a)), StackF(m, a), StackQ(m, a))
                          IN Given(j, Range(1, n * k) \o Range(n * k + m.lxi + 1, n), Range(n * k + 1, m.lxi), xs[k + 1])
            IN Force(x, LAMBDA v : PathLaw(m, xs, us, ys, th, k + 1, v))

ZAt(m, d, k) == Marg(d, Range(m.lz * (k - 1) + 1, m.lz))
LagCov(m, d, k) == SubM(d.S, Range(m.lz * (k - 1) + 1, m.lz), Range(m.lz * k + 1, m.lz))

(* log p(xi_{k+1..T}, y_{k+1..T} | belief d about z_k and xi_k) *)
RECURSIVE FutureLogP(_, _, _, _, _, _, _, _)
FutureLogP(m, xs, us, ys, th, k, d, acc) ==
    IF k = Len(xs) THEN acc
    ELSE LET a == At(xs[k], us[k], k - 1, th)
             an == At(xs[k + 1], 0, k, th)
         IN Force(RAdd(acc, LogPNextXi(m, d, a, xs[k + 1])), LAMBDA lx :
            Force(BeliefNext(m, d, a, xs[k + 1]), LAMBDA dn :
            IF ys[k + 1] = <<>> THEN FutureLogP(m, xs, us, ys, th, k + 1, dn, lx)
            ELSE Force(Measured(m, dn, an, ys[k + 1]), LAMBDA r :
                 FutureLogP(m, xs, us, ys, th, k + 1, r.d, RAdd(lx, r.lp)))))

-----------------------------------------------------------------------------
(* Expectation maximisation: the expected log densities under smoothed       *)
(* beliefs (z, P), (zn, Pn) with cov(z, zn) = M, up to constants             *)
ExpLogX0(m, xi, d, th) ==
    LET a == At(xi, 0, 0, th)
    IN RMul("-0.5", ExpectedQuad(VSub(d.m, VF(m.z0, a)), d.S, MF(m.P0, a)))

ExpLogNext(A, f, Q, lxi, xin, d, dn, M) ==
    LET lz == Dim(d)
        e == VSub(xin \o dn.m, VAdd(f, MV(A, d.m)))
        N == IF lxi = 0 THEN dn.S                                             \* cov of (xin, zn)
             ELSE Block(Zeros(lxi, lxi), Zeros(lxi, lz), Zeros(lz, lxi), dn.S)
        X == IF lxi = 0 THEN MM(A, M)                                         \* cov(A z, (xin, zn))
             ELSE HStack(Zeros(lxi + lz, lxi), MM(A, M))
        V == MAdd(MSub(MSub(N, X), MT(X)), Sandwich(A, d.S))
    IN RMul("-0.5", ExpectedQuad(e, V, Q))

ExpLogY(C, h, R, d, y) ==
    RMul("-0.5", ExpectedQuad(VSub(y, VAdd(h, MV(C, d.m))), Sandwich(C, d.S), R))
=============================================================================
