------------------------------ MODULE EMGauss ------------------------------
(***************************************************************************)
(* Expectation maximization for linear models c.m, inputs c.u, measurements *)
(* c.y: likelihood and expected complete log-density, both exact.           *)
(***************************************************************************)
EXTENDS EM, GaussModels

(* the joint law of z_0..z_t for parameters th, and log p(y)                  *)
RECURSIVE Joint(_, _, _, _, _)
Joint(c, th, t, d, lp) ==
    LET m == c.m
        n == m.lz
        b == At(<<>>, 0, t, th)
        pad(A) == IF t = 0 THEN A ELSE HStack(Zeros(Rows(A), n * t), A)
        r == IF c.y[t + 1] = <<>> THEN [d |-> d, lp |-> 0]
             ELSE Observe(d, pad(MF(m.C, b)), VF(m.h, b), MF(m.R, b), YShift(m, c.y[t + 1]))
    IN Force(r, LAMBDA q :
        IF t + 1 = Len(c.y) THEN [d |-> q.d, lp |-> RAdd(lp, q.lp)]
        ELSE LET a == At(<<>>, c.u[t + 1], t, th)
                 A == MF(m.Az, a)
             IN Force(Extend(q.d, pad(A), VF(m.fz, a), MF(m.Qz, a)), LAMBDA x :
                   Joint(c, th, t + 1, x, RAdd(lp, q.lp))))
Law(c, th) == LET a == At(<<>>, 0, 0, th) IN Joint(c, th, 0, Normal(VF(c.m.z0, a), MF(c.m.P0, a)), 0)

(* E[log p(z, y; th)] under the smoothed law d *)
Objective(c, th, d) ==
    LET m == c.m
        T == Len(c.y)
        a(t) == At(<<>>, c.u[t], t - 1, th)
        b(t) == At(<<>>, 0, t - 1, th)
        nx(t) == ExpLogNext(MF(m.Az, a(t)), VF(m.fz, a(t)), MF(m.Qz, a(t)), 0, <<>>, ZAt(m, d, t), ZAt(m, d, t + 1), LagCov(m, d, t))
        yy(t) == IF c.y[t] = <<>> THEN 0
                 ELSE ExpLogY(MF(m.C, b(t)), VF(m.h, b(t)), MF(m.R, b(t)), ZAt(m, d, t), YShift(m, c.y[t]))
    IN RAdd(ExpLogX0(m, <<>>, ZAt(m, d, 1), th),
            RAdd(RSum([t \in 1..(T - 1) |-> nx(t)]), RSum([t \in 1..T |-> yy(t)])))
=============================================================================
