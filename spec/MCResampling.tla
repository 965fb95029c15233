---------------------------- MODULE MCResampling ----------------------------
(***************************************************************************)
(* Systematic resampling as an algorithm: one offset, one scan over the     *)
(* weights. Weights are integers, the offset is the middle of one of the    *)
(* cells between the points where the outcome can change, so everything is  *)
(* exact. All weight vectors up to MaxN x MaxW and all offsets are checked. *)
(***************************************************************************)
EXTENDS Resampling, TLC

CONSTANTS MaxN, MaxW, MaxDraws

VARIABLES w, n, u, k, i, cnt
vars == <<w, n, u, k, i, cnt>>

S == ISum(w)
CumW(j) == ISum(SubSeq(w, 1, j))

(* grid point k in units of the weights is (2 S k + 2 u + 1) / (2 n) *)
Before(j) == 2 * S * k + 2 * u + 1 < 2 * n * CumW(j)

Init == /\ \E N \in 1..MaxN : w \in [1..N -> 0..MaxW]
        /\ ISum(w) > 0
        /\ n \in 1..MaxDraws
        /\ u \in 0..(ISum(w) - 1)
        /\ k = 0 /\ i = 1 /\ cnt = [j \in DOMAIN w |-> 0]

Take == k < n /\ Before(i) /\ cnt' = [cnt EXCEPT ![i] = @ + 1] /\ k' = k + 1 /\ i' = i /\ UNCHANGED <<w, n, u>>
Skip == k < n /\ ~Before(i) /\ i' = i + 1 /\ UNCHANGED <<w, n, u, k, cnt>>
Next == Take \/ Skip
Spec == Init /\ [][Next]_vars

P == [j \in DOMAIN w |-> RDiv(w[j], S)]

InRange == i <= Len(w)
CountsOK == k = n => Systematic(cnt, P, n)
NoZero == \A j \in DOMAIN w : w[j] = 0 => cnt[j] = 0
(* the outcome of the scan as a function of the offset *)
Direct(v) == [j \in DOMAIN w |->
    Cardinality({q \in 0..(n - 1) : 2 * S * q + 2 * v + 1 < 2 * n * CumW(j)})
    - Cardinality({q \in 0..(n - 1) : 2 * S * q + 2 * v + 1 < 2 * n * CumW(j - 1)})]
SameAsDirect == k = n => cnt = Direct(u)
(* every cell of the offset has probability 1/S: exact unbiasedness *)
ExactMean == (k = 0 /\ i = 1 /\ u = 0) =>
    \A j \in DOMAIN w : ISum([v \in 1..S |-> Direct(v - 1)[j]]) = n * w[j]
(* and the exact law used by the other design models agrees *)
=============================================================================
