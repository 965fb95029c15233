----------------------------- MODULE TraceUtils -----------------------------
(***************************************************************************)
(* The linear algebra underneath the Gaussian models, which exists twice:   *)
(* compiled and in Python.                                                  *)
(*   util   single calls on arbitrary arguments, against the definition     *)
(*   twin   whole runs made with one version and, with the same seed, with  *)
(*          the other: the same numbers                                     *)
(***************************************************************************)
EXTENDS Gauss, Trace

VARIABLES ci, l
vars == <<ci, l>>
C == Cases[ci]

RT == "1e-7"
AT == "1e-9"
Eq(a, b) == RClose(a, b, RT, AT)
VEq(a, b) == VClose(a, b, RT, AT)
MEq(A, B) == MClose(A, B, RT, AT)

Zero(n) == [i \in 1..n |-> 0]
MSum(A, B) == MAdd(A, B)
MNeg(A) == MScale(-1, A)
Sym(A) == MAdd(A, MT(A))
(* an (n x lz) matrix as the last columns of an (n x n) one *)
Wide(A, lxi) == IF lxi = 0 THEN A ELSE HStack(Zeros(Rows(A), lxi), A)
(* covariance of the prediction error: mean square of x_n - f - A z          *)
L2(p, A, P, M, Pn, lxi) ==
    LET n == Rows(A)
        X == Wide(MM(A, M), lxi)
        B == IF lxi = 0 THEN Pn ELSE Block(Zeros(lxi, lxi), Zeros(lxi, Rows(Pn)), Zeros(Rows(Pn), lxi), Pn)
    IN MAdd(MSub(MAdd(Outer(p, p), Sandwich(A, P)), Sym(X)), B)
(* its derivative when f, resp. A, changes by df, dA *)
DL2f(p, df) == MNeg(Sym(Outer(df, p)))
DL2A(p, A, dA, z, P, M, lxi) ==
    MSub(MSub(Sym(MM(MM(dA, P), MT(A))), Sym(Outer(MV(dA, z), p))), Sym(Wide(MM(dA, M), lxi)))

SmoothLaw(c) ==       \* smoothing z given that z' has the law (zn, Pn)
    LET d == Normal(c.z, c.P)
        n == Push(d, c.A, c.f, c.Q)
        J == MM(MM(c.P, MT(c.A)), MInv(n.S))
    IN [m |-> VAdd(c.z, MV(J, VSub(c.zn, n.m))), S |-> MAdd(c.P, Sandwich(J, MSub(c.Pn, n.S))), M |-> MM(J, c.Pn)]

Obs(c) == LET h == IF c.h = <<>> THEN Zero(Len(c.y)) ELSE c.h
          IN IF c.C = <<>> THEN [d |-> Normal(c.z, c.P), lp |-> LogPdf(VSub(c.y, h), Zero(Len(c.y)), c.R)]
             ELSE Observe(Normal(c.z, c.P), c.C, h, c.R, c.y)

UtilBad(c) ==
    CASE c.op = "lognormpdf" -> Clause(c.op, Len(c.val) = Len(c.err) /\ \A i \in 1..Len(c.err) :
                Eq(c.val[i], LogPdf(c.err[i], Zero(Len(c.err[i])), c.S[IF Len(c.S) = 1 THEN 1 ELSE i])))
      [] c.op = "predict" -> LET n == Push(Normal(c.z, c.P), c.A, c.f, c.Q)
                             IN Clause(c.op, VEq(c.oz, n.m) /\ MEq(c.oP, n.S) /\ c.kept)
      [] c.op = "diff" -> Clause(c.op, LET h == IF c.h = <<>> THEN Zero(Len(c.y)) ELSE c.h
                                       IN VEq(c.oz, VSub(VSub(c.y, h), IF c.C = <<>> THEN Zero(Len(c.y)) ELSE MV(c.C, c.z))))
      [] c.op = "measure" -> LET r == Ev(Obs(c))
                             IN Clause("measure.belief", VEq(c.oz, r.d.m) /\ MEq(c.oP, r.d.S))
                                \cup Clause("measure.lik", Eq(c.val, r.lp)) \cup Clause("measure.kept", c.kept)
      [] c.op = "smooth" -> LET r == Ev(SmoothLaw(c))
                            IN Clause(c.op, VEq(c.oz, r.m) /\ MEq(c.oP, r.S) /\ MEq(c.oM, r.M) /\ c.kept)
      [] c.op = "prederr" -> Clause(c.op, \A i \in 1..c.N : VEq(c.out[i], VSub(VSub(c.xn[i], c.f[i]), MV(c.A[i], c.z[i]))))
      [] c.op = "l2" -> Clause(c.op, \A i \in 1..c.N : MEq(c.out[i], L2(c.p[i], c.A[i], c.P[i], c.M[i], c.Pn[i], c.lxi)))
      [] c.op = "l2f" -> Clause(c.op, \A i \in 1..c.N : \A j \in 1..c.lenp :
                MEq(c.out[i][j], MAdd(c.start[i][j], DL2f(c.p[i], c.df[i][j]))))
      [] c.op = "l2A" -> Clause(c.op, \A i \in 1..c.N : \A j \in 1..c.lenp :
                MEq(c.out[i][j], MAdd(c.start[i][j], DL2A(c.p[i], c.A[i], c.dA[i][j], c.z[i], c.P[i], c.M[i], c.lxi))))
      [] c.op = "logprod" ->
            LET I == MInv(c.A)
            IN Clause(c.op, Eq(c.val, Trace1(MM(I, MSub(MAdd(c.dA, c.dB), MM(MM(c.dA, I), c.B))))))

TwinBad(c) == IF c.other = <<>> THEN {}
              ELSE Clause("twin.shape", Len(c.own) = Len(c.other[1]))
                   \cup Clause("twin.exc", c.runexc = c.otherexc)
                   \cup (IF Len(c.own) # Len(c.other[1]) THEN {} ELSE
                         Clause("twin", \A i \in 1..Len(c.own) :
                           LET a == c.own[i]  b == c.other[1][i]
                           IN IF RFinite(a) /\ RFinite(b) THEN RClose(a, b, "1e-6", "1e-6") ELSE a = b))

Init == ci \in 1..Len(Cases) /\ l = 0
Step == /\ l = 0 /\ l' = 1 /\ ci' = ci
        /\ Report(C, 1, IF C.exc # "" THEN {"exc"} ELSE IF C.kind = "util" THEN UtilBad(C) ELSE TwinBad(C))
Finish == l = 1 /\ Done(C, 1) /\ l' = 2 /\ ci' = ci
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
