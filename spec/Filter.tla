------------------------------- MODULE Filter -------------------------------
(***************************************************************************)
(* The forward filters on a model with finitely many states and arbitrary   *)
(* tables for its laws.                                                     *)
(*   m.K           number of states 0..K-1                                  *)
(*   m.lt[a][x][x'] log transition law, a = Ctx(m,u,t)                      *)
(*   m.ll[y][t%2][x] log-likelihood of a measurement                        *)
(*   m.ls[y][a][x]  first stage weight of the auxiliary filter              *)
(*   m.lq[y][a][x][x'] proposal of the SIR filters                          *)
(*   m.h[x"][x']   coupling of x_{t-1} and x_{t+1}, zero for Markov models  *)
(*   m.hm[x"][x]   dependence of a measurement on the state before          *)
(* Absent inputs and measurements are -1.                                   *)
(***************************************************************************)
EXTENDS Reals, Resampling

Ctx(m, u, t) == ((u + 1) + 3 * t) % m.A
LT(m, u, t, x, xn) == m.lt[Ctx(m, u, t) + 1][x + 1][xn + 1]
LL(m, y, t, x) == m.ll[y + 1][(t % 2) + 1][x + 1]
LS(m, u, y, t, x) == m.ls[y + 1][Ctx(m, u, t) + 1][x + 1]
LQ(m, u, y, t, x, xn) == m.lq[y + 1][Ctx(m, u, t) + 1][x + 1][xn + 1]

Missing == -1
H(m, xp, xn) == IF xp = -1 THEN 0 ELSE m.h[xp + 1][xn + 1]
HM(m, xp, x) == IF xp = -1 THEN 0 ELSE m.hm[xp + 1][x + 1]
(* log-likelihood of a measurement seen through the full interface *)
LLF(m, y, t, xp, x) == IF y = Missing THEN 0 ELSE RAdd(LL(m, y, t, x), HM(m, xp, x))

Conditional == {"cpf", "cpfas", "csiras", "cpfyas"}
AncestorSampling == {"cpfas", "csiras", "cpfyas"}
FromMeasurement == {"pfy", "cpfyas"}
SirLike == {"sir", "csiras"}

UniformLogW(N) == [i \in 1..N |-> RNeg(RLog(N))]

(* the weights that decide about, and steer, the resampling before a step *)
ResamplingLogW(m, f, lw, x, u, y, t) ==
    IF f = "apf" /\ y # Missing
    THEN Ev([i \in DOMAIN lw |-> RAdd(lw[i], LS(m, u, y, t, x[i]))])
    ELSE lw

(* effective sample size below the threshold; TRUE, FALSE, or both when too *)
(* close to call in floating point                                          *)
TriggerChoices(f, lw, res, N) ==
    IF f \in Conditional THEN {TRUE}
    ELSE IF RLe(res, 0) THEN {FALSE}
    ELSE LET ne == Neff(lw)  th == RMul(res, N)
         IN IF RClose(ne, th, "1e-9", 0) THEN {TRUE, FALSE} ELSE {RLt(ne, th)}

(* log-weight of the ancestor of the reference particle *)
(* xp: the parents' states of the particles x, -1 at the start              *)
ReferenceAncestorLogW(m, f, lw, xp, x, u, t, xref) ==
    Ev([i \in DOMAIN lw |-> RAdd(RAdd(lw[i], LT(m, u, t, x[i], xref)),
                                      IF f = "csiras" THEN 0 ELSE H(m, xp[i], xref))])

(* log-weights after a forward step, up to a constant; anc is 0-based *)
ForwardLogW(m, f, lw, xp, x, res, anc, xn, u, y, t) ==
    LET N == Len(xn)
        px(i) == x[anc[i] + 1]
        base(i) == IF res THEN (IF f = "apf" /\ y # Missing
                                THEN RNeg(LS(m, u, y, t, px(i))) ELSE 0)
                   ELSE lw[i]
        gain(i) == CASE f \in FromMeasurement -> RAdd(LT(m, u, t, px(i), xn[i]),
                                                  H(m, xp[anc[i] + 1], xn[i]))
                     [] f \in SirLike -> RSub(RAdd(LL(m, y, t + 1, xn[i]), LT(m, u, t, px(i), xn[i])),
                                              LQ(m, u, y, t, px(i), xn[i]))
                     [] OTHER -> LLF(m, y, t + 1, px(i), xn[i])
    IN Ev([i \in 1..N |-> RAdd(base(i), gain(i))])

MeasureLogW(m, lw, xp, x, y, t) ==
    IF y = Missing THEN lw ELSE Ev([i \in DOMAIN lw |-> RAdd(lw[i], LLF(m, y, t, xp[i], x[i]))])

(* may a particle that was at x move to xn *)
MoveOK(m, f, u, y, t, x, xn) ==
    /\ xn \in 0..(m.K - 1)
    /\ f \notin (FromMeasurement \cup SirLike) => RFinite(LT(m, u, t, x, xn))
=============================================================================
