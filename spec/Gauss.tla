------------------------------- MODULE Gauss -------------------------------
(***************************************************************************)
(* Multivariate normal distributions [m |-> mean, S |-> covariance]: the    *)
(* three operations everything else is made of - adding variables that are  *)
(* affine in the present ones, observing, and forgetting.                   *)
(***************************************************************************)
EXTENDS LinAlg

Log2Pi == "1.837877066409345483560659472811235279722794947275566825634"

Normal(m, S) == [m |-> m, S |-> S]
Dim(d) == Len(d.m)

(* log N(x; m, S) *)
LogPdf(x, m, S) ==
    LET e == VSub(x, m)
        r == Solve(S, Col(e))
    IN RMul("-0.5", RAdd(RAdd(RMul(Len(x), Log2Pi), r.ld), RDot(e, Vec(r.x))))
(* the maximum of the density *)
LogPeak(S) == RMul("-0.5", RAdd(RMul(Rows(S), Log2Pi), LogDet(S)))

(* the law of L x + f + v, v ~ N(0, Q), x ~ d *)
Push(d, L, f, Q) == Normal(VAdd(MV(L, d.m), f), MAdd(Sandwich(L, d.S), Q))

(* the joint law of x and w = L x + f + v *)
Extend(d, L, f, Q) ==
    LET p == Push(d, L, f, Q)
        X == MM(L, d.S)          \* cov(w, x)
    IN Normal(d.m \o p.m, Block(d.S, MT(X), X, p.S))

(* what is left of d, restricted to the variables in I *)
Marg(d, I) == Normal(SubV(d.m, I), SubM(d.S, I, I))

(* d given L x + h + e = y, e ~ N(0, R), and the log-density of y *)
Observe(d, L, h, R, y) ==
    LET X == MM(d.S, MT(L))                     \* cov(x, y)
        p == Push(d, L, h, R)
        e == VSub(y, p.m)
        r == Solve(p.S, HStack(Col(e), MT(X)))
        k == Vec(r.x)
        G == SubM(r.x, Range(1, Rows(r.x)), Range(2, Dim(d)))
    IN [d |-> Normal(VAdd(d.m, MV(X, k)), MSub(d.S, MM(X, G))),
        lp |-> RMul("-0.5", RAdd(RAdd(RMul(Len(y), Log2Pi), r.ld), RDot(e, k)))]

(* d given that the variables in J (disjoint from I) are v: the law of I *)
Given(d, I, J, v) ==
    LET r == Solve(SubM(d.S, J, J), HStack(Col(VSub(v, SubV(d.m, J))), SubM(d.S, J, I)))
        X == SubM(d.S, I, J)
    IN Normal(VAdd(SubV(d.m, I), MV(X, Vec(r.x))),
              MSub(SubM(d.S, I, I), MM(X, SubM(r.x, Range(1, Len(J)), Range(2, Len(I))))))

(* expectation of -2 log N(x; m, Q) without the constant, where e = E x - m  *)
(* and V = cov(x - m)                                                        *)
ExpectedQuad(e, V, Q) ==
    LET r == Solve(Q, MAdd(Outer(e, e), V)) IN RAdd(r.ld, Trace1(r.x))

DClose(d, z, P) == VClose(z, d.m, "1e-6", "1e-6") /\ MClose(P, d.S, "1e-6", "1e-6")
=============================================================================
