----------------------------- MODULE Resampling -----------------------------
(***************************************************************************)
(* Low-variance (systematic) resampling. c is the vector of the numbers of  *)
(* times every index was drawn, p the normalised weights, n the number of   *)
(* draws.                                                                   *)
(***************************************************************************)
EXTENDS Reals

Eps == "1e-9"
CountLow(p, n) == RFloor(RAdd(RMul(n, p), RMul(n, "-1e-9")))
CountHigh(p, n) == RCeil(RAdd(RMul(n, p), RMul(n, Eps)))

Systematic(c, p, n) ==
    /\ Len(c) = Len(p)
    /\ ISum(c) = n
    /\ \A i \in DOMAIN p : /\ c[i] >= CountLow(p[i], n)
                           /\ c[i] <= CountHigh(p[i], n)
                           /\ (REq(p[i], 0) => c[i] = 0)

(* hist: sequence of [c |-> count vector, f |-> number of runs] *)
Runs(hist) == ISum([k \in DOMAIN hist |-> hist[k].f])
Total(hist, i) == ISum([k \in DOMAIN hist |-> hist[k].f * hist[k].c[i]])

(* E[c_i] = n p_i: c_i is one of two consecutive integers in every run, so  *)
(* the excess over the lower one is a Bernoulli variable                     *)
Unbiased(hist, p, n) ==
    LET r == Runs(hist)
    IN \A i \in DOMAIN p :
        LET q == RMul(n, p[i])
            lo == RFloor(q)
        IN FreqOK(RSub(Total(hist, i), RMul(r, lo)), r, RSub(q, lo))

(* the exact set of outcomes of systematic sampling, for one offset u in    *)
(* [0,1): index i is drawn for grid point (k+u)/n iff it lies in            *)
(* (cum(i-1), cum(i)]                                                       *)
=============================================================================
