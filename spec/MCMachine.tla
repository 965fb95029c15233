------------------------------ MODULE MCMachine ------------------------------
(***************************************************************************)
(* A particle trajectory as a state machine. hist is the whole history, a   *)
(* sequence of steps                                                        *)
(*   [x states, w log-weights (up to a constant), anc ancestors (0-based),  *)
(*    u, y  the input that led here and the measurement, -1 if none,        *)
(*    res   whether the step before resampled]                              *)
(* Every resampling outcome, every ancestor of the reference particle and   *)
(* every propagation the specification allows is explored. The transition   *)
(* relation uses the operators recorded runs are judged by (ForwardLogW,    *)
(* TriggerChoices, ...); the invariants state what they are for.            *)
(***************************************************************************)
EXTENDS Filter, Laws, TLC

CONSTANTS Filters, Ns, Steps, Thresholds, Refs, Hs

VARIABLES f, N, res, ref, h, hist, phase
vars == <<f, N, res, ref, h, hist, phase>>

Lg(a) == IF REq(a, 0) THEN NegInf ELSE RLog(a)
Lgs(s) == [i \in DOMAIN s |-> Lg(s[i])]
HQ == {"0"}
HT == {"0", "0.7"}
ThrQ == {"0", "0.8"}
RefsQ == {<<0, 1, 1, 0, 1>>, <<1, 1, 1, 1, 1>>}
RefsT == {<<a, b, c, 0, 1>> : a \in {0, 1}, b \in {0, 1}, c \in {0, 1}}
X == {0, 1}

Model(k) == [K |-> 2, A |-> 2, p0 |-> Lgs(<<"0.5", "0.5">>),
      lt |-> <<<<Lgs(<<"0.25", "0.75">>), Lgs(<<"0.6", "0.4">>)>>,
               <<Lgs(<<"0.9", "0.1">>), Lgs(<<"0", "1">>)>>>>,
      ll |-> <<<<Lgs(<<"0.5", "0.125">>), Lgs(<<"0.3", "0.9">>)>>,
               <<Lgs(<<"0", "0.8">>), Lgs(<<"0.7", "0.2">>)>>>>,
      ls |-> <<<<Lgs(<<"0.5", "0.25">>), Lgs(<<"0.2", "1">>)>>,
               <<Lgs(<<"1", "0.125">>), Lgs(<<"0.3", "0.4">>)>>>>,
      lq |-> [y \in 1..2 |-> [a \in 1..2 |-> <<Lgs(<<"0.3", "0.7">>), Lgs(<<"0.5", "0.5">>)>>]],
      h |-> <<<<"0", "0">>, <<"0", k>>>>, hm |-> <<<<"0", "0">>, <<k, "0">>>>]
Markov == Ev(Model("0"))          \* constant: evaluated once
Coupled == Ev(Model("0.7"))
M == IF h = "0" THEN Markov ELSE Coupled

Len1 == Len(hist)
Now == hist[Len(hist)]
Parents(k) == [i \in 1..N |-> IF k = 1 THEN -1 ELSE hist[k - 1].x[hist[k].anc[i] + 1]]
Cond == f \in Conditional
U == 0
Ys == IF f \in SirLike \cup FromMeasurement THEN {0, 1} ELSE {Missing, 0, 1}
InitLogW == [i \in 1..N |-> "0"]
Str(w) == [i \in DOMAIN w |-> RNorm(w[i])]

Init == /\ f \in Filters /\ N \in Ns /\ res \in Thresholds /\ h \in Hs
        /\ ref \in (IF f \in Conditional THEN Refs ELSE {<<>>})
        /\ (f \in Conditional => res = "0")
        /\ (f \notin Conditional => h = "0")
        /\ \E x \in [1..N -> X] :
              /\ (f \in Conditional => x[N] = ref[1])
              /\ hist = <<[x |-> x, w |-> InitLogW, anc |-> [i \in 1..N |-> i - 1], y |-> Missing, res |-> FALSE]>>
        /\ phase = "new"

Measure(y) ==
    /\ phase = "new"
    /\ LET w == IF f \in FromMeasurement THEN Now.w ELSE MeasureLogW(M, Now.w, Parents(Len1), Now.x, y, 0)
       IN SomeFinite(w) /\ hist' = [hist EXCEPT ![1].w = Str(w), ![1].y = y]
    /\ phase' = "run" /\ UNCHANGED <<f, N, res, ref, h>>

Free == IF Cond THEN N - 1 ELSE N
(* which ancestors the particles may get *)
AncChoices(rw) ==
    LET law == SystematicLaw(Probs(rw), Free)
        c == {Ancestors(law[k].v) : k \in 1..Len(law)}
    IN IF ~Cond THEN c
       ELSE IF f = "cpf" THEN {Append(a, N) : a \in c}
       ELSE LET ok == {i \in 1..N : RFinite(ReferenceAncestorLogW(M, f, Now.w, Parents(Len1), Now.x, U, Len1 - 1, ref[Len1 + 1])[i])}
            IN {Append(a, i) : a \in c, i \in ok}

Forward(y) ==
    /\ phase = "run" /\ Len1 <= Steps
    /\ LET t == Len1 - 1
           rw == ResamplingLogW(M, f, Now.w, Now.x, U, y, t)
       IN /\ SomeFinite(rw)
          /\ \E did \in TriggerChoices(f, rw, res, N) :
             \E anc \in (IF did THEN AncChoices(rw) ELSE {[i \in 1..N |-> i]}) :
             \E xn \in [1..N -> X] :
                /\ (Cond => xn[N] = ref[Len1 + 1])
                /\ \A i \in 1..Free : MoveOK(M, f, U, y, t, Now.x[anc[i]], xn[i])
                /\ LET w == ForwardLogW(M, f, Now.w, Parents(Len1), Now.x, did, [i \in 1..N |-> anc[i] - 1], xn, U, y, t)
                   IN /\ SomeFinite(w)
                      /\ hist' = Append(hist, [x |-> xn, w |-> Str(w), anc |-> [i \in 1..N |-> anc[i] - 1], y |-> y, res |-> did])
    /\ phase' = "run" /\ UNCHANGED <<f, N, res, ref, h>>

Next == \E y \in Ys : Measure(y) \/ Forward(y)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* the lineage of particle i of step k: its index at every earlier step *)
RECURSIVE Lineage(_, _, _)
Lineage(k, i, j) == IF j = k THEN i ELSE hist[j + 1].anc[Lineage(k, i, j + 1)] + 1
PathOf(k, i) == [j \in 1..k |-> hist[j].x[Lineage(k, i, j)]]

Genealogy == \A k \in 1..Len1 : \A i \in 1..N : \A j \in 1..k : Lineage(k, i, j) \in 1..N
(* only the newest step may change, and only while it is measured *)
HistoryGrows == [][ /\ Len(hist') >= Len(hist)
                    /\ \A k \in 1..Len(hist) : hist'[k].x = hist[k].x /\ hist'[k].anc = hist[k].anc
                    /\ \A k \in 1..(Len(hist) - 1) : hist'[k] = hist[k]
                    /\ (Len(hist') > Len(hist) => hist'[Len(hist)] = hist[Len(hist)]) ]_vars
(* the reference path survives as states, and with a plain conditional      *)
(* filter also as a lineage                                                  *)
ReferenceKept == Cond => \A k \in 1..Len1 : hist[k].x[N] = ref[k]
ReferenceLineage == f = "cpf" => PathOf(Len1, N) = SubSeq(ref, 1, Len1)
(* nobody descends from a particle of weight zero *)
NoDeadParents == \A k \in 2..Len1 : hist[k].res =>
    \A i \in 1..Free : RFinite(hist[k - 1].w[hist[k].anc[i] + 1])

(* The meaning of the weights: the likelihood of everything since the last  *)
(* resampling along the lineage, corrected for how it was proposed           *)
RECURSIVE LastRes(_)
LastRes(k) == IF k = 1 \/ hist[k].res THEN k ELSE LastRes(k - 1)
Gain(k, xp, x) ==      \* entering step k > 1 from xp
    CASE f \in FromMeasurement -> RAdd(LT(M, U, k - 2, xp[1], x), H(M, xp[2], x))
      [] f \in SirLike -> RSub(RAdd(LT(M, U, k - 2, xp[1], x), LL(M, hist[k].y, k - 1, x)), LQ(M, U, hist[k].y, k - 2, xp[1], x))
      [] OTHER -> LLF(M, hist[k].y, k - 1, xp[1], x)
Correction(k, xp) == IF f = "apf" /\ hist[k].res /\ hist[k].y # Missing THEN RNeg(LS(M, U, hist[k].y, k - 2, xp[1])) ELSE 0
Meaning(k, i) ==
    LET p == PathOf(k, i)
        r == LastRes(k)
        prev(j) == <<p[j - 1], IF j = 2 THEN -1 ELSE p[j - 2]>>
        g(j) == IF j = 1
                THEN IF f \in FromMeasurement \/ hist[1].y = Missing THEN 0 ELSE LL(M, hist[1].y, 0, p[1])
                ELSE Gain(j, prev(j), p[j])
    IN RAdd(RSum([j \in 1..(k - r + 1) |-> g(r + j - 1)]), IF r = 1 THEN 0 ELSE Correction(r, prev(r)))
WeightsMean == phase = "run" => SameLogWeights(Now.w, [i \in 1..N |-> Meaning(Len1, i)])

(* weights never contain nan or plus infinity *)
WeightsSane == LogOK(Now.w) /\ SomeFinite(Now.w)
=============================================================================
