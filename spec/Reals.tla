------------------------------- MODULE Reals -------------------------------
(***************************************************************************)
(* Weights, probabilities and statistical acceptance on top of RealNum.     *)
(***************************************************************************)
EXTENDS RealNum, Integers, Sequences, FiniteSets

NegInf == "-inf"
IsNum(a) == ~RIsNaN(a)
\* a log-weight may be minus infinity, but never nan or plus infinity
LogOK(w) == \A i \in DOMAIN w : RFinite(w[i]) \/ w[i] = NegInf
SomeFinite(w) == \E i \in DOMAIN w : RFinite(w[i])

(* F(x), evaluating x exactly once (TLC evaluates arguments by need) *)
Force(x, F(_)) == CHOOSE v \in {F(y) : y \in {x}} : TRUE

RAbs(a) == IF RLt(a, 0) THEN RNeg(a) ELSE a
RMax2(a, b) == IF RLt(a, b) THEN b ELSE a
RMin2(a, b) == IF RLt(a, b) THEN a ELSE b
RSq(a) == RMul(a, a)
RCeil(a) == -RFloor(RNeg(a))

VAdd(a, b) == Ev([i \in DOMAIN a |-> RAdd(a[i], b[i])])
VSub(a, b) == Ev([i \in DOMAIN a |-> RSub(a[i], b[i])])
VScale(k, a) == Ev([i \in DOMAIN a |-> RMul(k, a[i])])

(* exp(w) rescaled so that the largest is 1, and normalised *)
ExpW(w) == LET m == RMaxSeq(w) IN Ev([i \in DOMAIN w |-> RExp(RSub(w[i], m))])
Normalise(e) == LET s == RSum(e) IN Ev([i \in DOMAIN e |-> RDiv(e[i], s)])
Probs(w) == Normalise(ExpW(w))
LogSumExp(w) == LET m == RMaxSeq(w) IN RAdd(m, RLog(RSum(ExpW(w))))

Neff(w) == LET p == Probs(w) IN RDiv(1, RDot(p, p))

(* equal log-weights up to one common additive constant *)
SameLogWeights(w, v) ==
    /\ DOMAIN w = DOMAIN v /\ LogOK(w) /\ LogOK(v) /\ SomeFinite(w) /\ SomeFinite(v)
    /\ LET a == RMaxSeq(w)  b == RMaxSeq(v)
       IN \A i \in DOMAIN w : IF RFinite(w[i]) /\ RFinite(v[i])
                              THEN RClose(RSub(w[i], a), RSub(v[i], b), "1e-9", "1e-7")
                              ELSE w[i] = v[i]

(* k of n independent trials succeeded; the probability is p *)
FreqOK(k, n, p) ==
    RLe(RAbs(RSub(k, RMul(n, p))),
        RAdd(6, RMul("5.5", RSqrt(RMul(n, RMax2(0, RMul(p, RSub(1, p))))))))

(* k is the sum over n independent runs of a count in 0..m with mean m*p *)
FreqOKM(k, n, m, p) ==
    RLe(RAbs(RSub(k, RMul(RMul(n, m), p))),
        RMul(m, RAdd(6, RMul("5.5", RSqrt(RMul(n, RMax2(0, RMul(p, RSub(1, p)))))))))

(* sums over sequences of integers *)
RECURSIVE ISum(_)
ISum(s) == IF s = <<>> THEN 0 ELSE Head(s) + ISum(Tail(s))
=============================================================================
