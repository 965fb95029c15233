-------------------------------- MODULE Pdf --------------------------------
(***************************************************************************)
(* The density of the sum of two independent uniform variables: how much    *)
(* of the one interval, shifted, lies over the other.                       *)
(***************************************************************************)
EXTENDS Reals, Integers, Sequences

RMin(a, b) == IF RLt(a, b) THEN a ELSE b
RMax(a, b) == IF RLt(a, b) THEN b ELSE a
Lower(i) == RMin(i[1], i[2])
Upper(i) == RMax(i[1], i[2])
Width(i) == RSub(Upper(i), Lower(i))

Overlap(a, b, p) ==
    RMax(0, RSub(RMin(Upper(a), RSub(p, Lower(b))), RMax(Lower(a), RSub(p, Upper(b)))))

(* a variable without width is a constant that shifts the other one *)
Flat(i, p) == IF RLe(Lower(i), p) /\ RLe(p, Upper(i)) THEN RDiv(1, Width(i)) ELSE 0
SumDensity(a, b, p) ==
    IF REq(Width(a), 0) THEN Flat(b, RSub(p, a[1]))
    ELSE IF REq(Width(b), 0) THEN Flat(a, RSub(p, b[1]))
    ELSE RDiv(Overlap(a, b, p), RMul(Width(a), Width(b)))

(* corners of the graph, in order *)
Corners(a, b) ==
    LET l == RAdd(Lower(a), Lower(b))  h == RAdd(Upper(a), Upper(b))
        w == RMin(Width(a), Width(b))
    IN <<l, RAdd(l, w), RSub(h, w), h>>
=============================================================================
