------------------------------ MODULE TracePdf ------------------------------
(***************************************************************************)
(* Densities evaluated by the implementation against Pdf.                   *)
(***************************************************************************)
EXTENDS Pdf, Trace

VARIABLES ci, l
vars == <<ci, l>>
C == Cases[ci]

(* what rounding the position by 1e-12 or so does on a slope, relative to the highest value *)
Tol(c) == RMul("1e-8", RMax(1, SumDensity(c.a, c.b, RDiv(RAdd(RAdd(Lower(c.a), Upper(c.a)), RAdd(Lower(c.b), Upper(c.b))), 2))))

Bad(c) ==
    Clause("shape", Len(c.v) = Len(c.p))
    \cup Clause("density", Len(c.v) = Len(c.p) => \A k \in 1..Len(c.p) :
            RFinite(c.v[k]) /\ RClose(c.v[k], SumDensity(c.a, c.b, c.p[k]), "1e-9", Tol(c)))

Init == ci \in 1..Len(Cases) /\ l = 0
Next == /\ l = 0
        /\ l' = 1 /\ ci' = ci
        /\ Report(C, 1, IF C.exc # "" THEN {"exc"} ELSE Bad(C))
        /\ Done(C, 1)
Spec == Init /\ [][Next]_vars
=============================================================================
