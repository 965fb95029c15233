---------------------------- MODULE MCFilterLaw -----------------------------
(***************************************************************************)
(* Are the weight formulas of Filter right? On every small model of a       *)
(* family, the whole probability tree of a filter run is evaluated exactly: *)
(*   Unbiased   the product of the normalising constants has the likelihood *)
(*              of the measurements as its mean (pf, apf, sir, pfy), with   *)
(*              and without resampling, for every threshold                 *)
(*   Invariant  with one free particle the conditional filters leave the    *)
(*              smoothing distribution invariant (cpf, cpfas, csiras,       *)
(*              cpfyas)                                                     *)
(* The formulas are the very operators the recorded runs are judged by.     *)
(***************************************************************************)
EXTENDS Filter, Laws, TLC

CONSTANTS Starts, Rows, Liks, Stage, Props, Filters, Steps, Ns, Missings, Thresholds

MissQ == {-1, 1}
MissT == {-1, 0, 1, 2}
StartsQ == {<<"0.25", "0.75">>}
StartsT == {<<"0.5", "0.5">>, <<"0.25", "0.75">>}
RowsQ == {<<"0.25", "0.75">>, <<"1", "0">>}
LiksQ == {<<"0.5", "0.125">>, <<"0.8", "0">>}
StageQ == {<<"0.5", "0.25">>}
PropsQ == {<<"0.25", "0.75">>}
ThrQ == {"0", "0.8"}
ThrT == {"0", "0.8", "1.01"}
RowsT == {<<"0.25", "0.75">>, <<"0.5", "0.5">>, <<"1", "0">>, <<"0.9", "0.1">>}
LiksT == {<<"0.5", "0.125">>, <<"0.8", "0">>, <<"0.3", "0.6">>}
StageT == {<<"0.5", "0.25">>, <<"0.1", "1">>}
PropsT == {<<"0.25", "0.75">>, <<"0.6", "0.4">>}

VARIABLES m, f, T, N, res, ymiss, go
vars == <<m, f, T, N, res, ymiss, go>>

Lg(a) == IF REq(a, 0) THEN NegInf ELSE RLog(a)
Lgs(s) == [i \in DOMAIN s |-> Lg(s[i])]

Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
(* measurements that depend on the state before, where the filters take    *)
(* care of them (ancestor sampling looks a single step ahead)               *)
HistMeas == IF f \in {"pf", "apf", "cpf"} THEN "0.4" ELSE "0"
(* two inputs' worth of contexts, so that a wrong context shows *)
Model(p0, r1, r2, l1, l2, st, pr) ==
    LET lt(a) == IF a = 1 THEN <<Lgs(r1), Lgs(r2)>> ELSE <<Lgs(r2), Lgs(Rev(r1))>>
    IN [K |-> 2, A |-> 2, p0 |-> Lgs(p0), lt |-> [a \in 1..2 |-> lt(a)],
        ll |-> [y \in 1..2 |-> [q \in 1..2 |-> IF y = q THEN Lgs(l1) ELSE Lgs(l2)]],
        ls |-> [y \in 1..2 |-> [a \in 1..2 |-> IF a = y THEN Lgs(st) ELSE Lgs(Rev(st))]],
        lq |-> [y \in 1..2 |-> [a \in 1..2 |-> <<Lgs(pr), Lgs(Rev(pr))>>]],
        h |-> <<<<0, 0>>, <<0, 0>>>>, hm |-> <<<<"0", "0">>, <<HistMeas, "0">>>>]

One(S) == {CHOOSE a \in S : TRUE}
Init == /\ f \in Filters
        /\ m \in {Model(p0, r1, r2, l1, l2, st, pr) : p0 \in Starts, r1 \in Rows, r2 \in Rows,
                        l1 \in Liks, l2 \in Liks, st \in (IF f = "apf" THEN Stage ELSE One(Stage)),
                        pr \in (IF f \in SirLike THEN Props ELSE One(Props))}
        /\ T \in Steps /\ N \in Ns /\ res \in Thresholds
        /\ ymiss \in (IF f \in {"sir", "csiras", "pfy", "cpfyas"} THEN {-1} ELSE Missings)
        /\ (f \in Conditional => res = "0")
        /\ go = FALSE
(* (invariants of initial states are not checked in parallel) *)
Next == ~go /\ go' = TRUE /\ UNCHANGED <<m, f, T, N, res, ymiss>>
Spec == Init /\ [][Next]_vars

Y(t) == IF t = ymiss THEN Missing ELSE t % 2
U(t) == (t + 1) % 2

-----------------------------------------------------------------------------
X == {0, 1}
FromY == f \in FromMeasurement
(* proposals from the measurement are proportional to the likelihood *)
QY(t, x) == LET e(z) == RExp(LL(m, Y(t), t, z)) IN RDiv(e(x), RAdd(e(0), e(1)))
CY(t) == RAdd(RExp(LL(m, Y(t), t, 0)), RExp(LL(m, Y(t), t, 1)))
MoveP(t, x, xn) ==
    CASE FromY -> QY(t + 1, xn)
      [] f \in SirLike -> RExp(LQ(m, U(t), Y(t + 1), t, x, xn))
      [] OTHER -> RExp(LT(m, U(t), t, x, xn))
StartP(x) == IF FromY THEN QY(0, x) ELSE RExp(m.p0[x + 1])
NoParents(n) == [i \in 1..n |-> -1]
StartW(xs) == IF FromY THEN UniformLogW(Len(xs)) ELSE MeasureLogW(m, UniformLogW(Len(xs)), NoParents(Len(xs)), xs, Y(0), 0)

SumExp(w) == RSum([i \in DOMAIN w |-> RExp(w[i])])
Alive(w) == SomeFinite(w)
All(n) == [1..n -> X]
Prod(F(_), n) == LET RECURSIVE P(_) P(i) == IF i = 0 THEN 1 ELSE RMul(F(i), P(i - 1)) IN P(n)

-----------------------------------------------------------------------------
(* the expected product of the normalising constants after time t *)
RECURSIVE Rest(_, _, _)
Outcome(t, x, lw, rw, did, anc) ==      \* one choice of ancestors (1-based)
    LET one(xn) ==
          LET pr == Prod(LAMBDA i : MoveP(t, x[anc[i]], xn[i]), N)
          IN IF REq(pr, 0) THEN 0
             ELSE Force(ForwardLogW(m, f, lw, NoParents(N), x, did, [i \in 1..N |-> anc[i] - 1], xn, U(t), Y(t + 1), t), LAMBDA nw :
                  IF ~Alive(nw) THEN 0
                  ELSE LET z == IF did THEN RMul(RDiv(SumExp(nw), N), RDiv(SumExp(rw), SumExp(lw)))
                                ELSE RDiv(SumExp(nw), SumExp(lw))
                       IN RMul(RMul(pr, z), Rest(t + 1, xn, nw)))
    IN SumOver(one, All(N))
Rest(t, x, lw) ==
    IF t = T THEN 1
    ELSE Force(ResamplingLogW(m, f, lw, x, U(t), Y(t + 1), t), LAMBDA rw :
         IF ~Alive(rw) THEN 0          \* nothing can explain the measurement
         ELSE IF TRUE \in TriggerChoices(f, rw, res, N)
              THEN ExpectLaw(SystematicLaw(Probs(rw), N), LAMBDA c : Outcome(t, x, lw, rw, TRUE, Ancestors(c)))
              ELSE Outcome(t, x, lw, rw, FALSE, [i \in 1..N |-> i]))
Estimate ==
    SumOver(LAMBDA x : LET pr == Prod(LAMBDA i : StartP(x[i]), N)
                       IN IF REq(pr, 0) THEN 0
                          ELSE Force(StartW(x), LAMBDA w : IF ~Alive(w) THEN 0 ELSE RMul(pr, RMul(SumExp(w), Rest(0, x, w)))),
            All(N))

(* what it should be *)
PathP(p) ==
    RMul(IF FromY THEN QY(0, p[1]) ELSE RMul(RExp(m.p0[p[1] + 1]), IF Y(0) = Missing THEN 1 ELSE RExp(LL(m, Y(0), 0, p[1]))),
         Prod(LAMBDA t : RMul(RExp(LT(m, U(t - 1), t - 1, p[t], p[t + 1])),
                              IF Y(t) = Missing THEN 1
                              ELSE RDiv(RExp(LLF(m, Y(t), t, p[t], p[t + 1])), IF FromY THEN CY(t) ELSE 1)), T))
Paths == [1..(T + 1) -> X]
Likelihood == SumOver(PathP, Paths)

UnbiasedEstimate == (go /\ f \notin Conditional) => RClose(Estimate, Likelihood, "1e-20", "1e-20")

-----------------------------------------------------------------------------
(* conditional filters: one free particle and the reference. A path is      *)
(* carried along with every particle.                                       *)
RefProbs(t, x, lw, xref) == IF f = "cpf" THEN <<0, 1>>
                            ELSE Probs(ReferenceAncestorLogW(m, f, lw, NoParents(2), x, U(t), t, xref))
(* the probability that the new path is q, given the paths of the particles *)
RECURSIVE Kernel(_, _, _, _, _)
Kernel(t, ps, lw, ref, q) ==
    LET x == [i \in 1..2 |-> ps[i][t + 1]]
    IN IF t = T THEN LET pr == Probs(lw) IN RSum([i \in 1..2 |-> IF ps[i] = q THEN pr[i] ELSE 0])
       ELSE Force(Probs(lw), LAMBDA pw :
            SumOver(LAMBDA v :        \* ancestors of both, state of the free one
              LET a == <<v[1], v[2]>>
                  xn == <<v[3], ref[t + 2]>>
                  rp == RefProbs(t, x, lw, ref[t + 2])
                  pr == RMul(RMul(pw[a[1]], rp[a[2]]), MoveP(t, x[a[1]], xn[1]))
              IN IF REq(pr, 0) THEN 0
                 ELSE Force(ForwardLogW(m, f, lw, NoParents(2), x, TRUE, <<a[1] - 1, a[2] - 1>>, xn, U(t), Y(t + 1), t), LAMBDA nw :
                      RMul(pr, Kernel(t + 1, [i \in 1..2 |-> Append(ps[a[i]], xn[i])], nw, ref, q))),
              {1, 2} \X {1, 2} \X X))
Moves(ref, q) == SumOver(LAMBDA x0 : IF REq(StartP(x0), 0) THEN 0
                    ELSE RMul(StartP(x0), Kernel(0, <<<<x0>>, <<ref[1]>>>>, StartW(<<x0, ref[1]>>), ref, q)), X)
InvariantKernel ==
    (go /\ f \in Conditional) =>
        \A q \in Paths :
            RClose(SumOver(LAMBDA r : IF REq(PathP(r), 0) THEN 0 ELSE RMul(PathP(r), Moves(r, q)), Paths),
                   PathP(q), "1e-20", "1e-20")
=============================================================================
