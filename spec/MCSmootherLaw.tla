--------------------------- MODULE MCSmootherLaw ----------------------------
(***************************************************************************)
(* Do the smoothers' laws, as Smoother states them, do what they are for?   *)
(* Checked exactly on every model of a family:                              *)
(*   Backward    with one particle per state, weighted by the exact         *)
(*               filtering law, backward simulation yields the smoothing    *)
(*               law of the whole path                                      *)
(*   Rejection   R rejection attempts with any valid upper bound, then a    *)
(*               draw from the full law, have the full law                  *)
(*   Metropolis  one step of the chain over particles leaves the full law   *)
(*               invariant                                                  *)
(*   Mhips       every site update leaves the smoothing law invariant       *)
(*   MhipsRed    so does the one proposing from the dynamics                *)
(*   Mhbp        the chain over (state, ancestor) leaves its target         *)
(*               invariant                                                  *)
(***************************************************************************)
EXTENDS Smoother, Laws, TLC

CONSTANTS Rows, Liks, Props, Horizon, Missings, Hs, Tries

VARIABLES m, T, ymiss, go
vars == <<m, T, ymiss, go>>

Lg(a) == IF REq(a, 0) THEN NegInf ELSE RLog(a)
Lgs(s) == [i \in DOMAIN s |-> Lg(s[i])]
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
X == {0, 1}

RowsQ == {<<"0.25", "0.75">>, <<"1", "0">>}
LiksQ == {<<"0.5", "0.125">>, <<"0.8", "0">>}
PropsQ == {<<"0.25", "0.75">>}
MissQ == {-1, 1}
HsQ == {"0"}
RowsT == {<<"0.25", "0.75">>, <<"0.5", "0.5">>, <<"1", "0">>}
LiksT == {<<"0.5", "0.125">>, <<"0.8", "0">>, <<"0.2", "0.9">>}
PropsT == {<<"0.25", "0.75">>, <<"0.6", "0.4">>}
MissT == {-1, 0, 1, 2}
HsT == {"0", "0.75"}

Model(r1, r2, l1, l2, pr, h) ==
    LET lt(a) == IF a = 1 THEN <<Lgs(r1), Lgs(r2)>> ELSE <<Lgs(r2), Lgs(Rev(r1))>>
    IN [K |-> 2, A |-> 2, p0 |-> Lgs(<<"0.25", "0.75">>), lt |-> [a \in 1..2 |-> lt(a)],
        ll |-> [y \in 1..2 |-> [q \in 1..2 |-> IF y = q THEN Lgs(l1) ELSE Lgs(l2)]],
        lps |-> [y \in 1..3 |-> [p \in 1..3 |-> [q \in 1..3 |-> IF p = q THEN Lgs(pr) ELSE IF p < q THEN Lgs(Rev(pr)) ELSE Lgs(<<"0.5", "0.5">>)]]],
        h |-> <<<<"0", "0">>, <<"0", h>>>>, hm |-> <<<<"0", "0">>, <<"0", "0">>>>, g |-> <<<<h, "0">>, <<"0", "0">>>>]

Init == /\ m \in {Model(r1, r2, l1, l2, pr, h) : r1 \in Rows, r2 \in Rows, l1 \in Liks, l2 \in Liks, pr \in Props, h \in Hs}
        /\ T \in Horizon /\ ymiss \in Missings /\ go = FALSE
Next == ~go /\ go' = TRUE /\ UNCHANGED <<m, T, ymiss>>
Spec == Init /\ [][Next]_vars

U == [t \in 1..T |-> t % 2]
Y == [t \in 1..T |-> IF t - 1 = ymiss THEN Missing ELSE t % 2]
Like(t, x) == IF Y[t + 1] = Missing THEN 1 ELSE RExp(LL(m, Y[t + 1], t, x))
Move(t, x, xn) == RExp(LT(m, U[t + 1], t, x, xn))

(* exact filtering law of every time, as log-weights of particles 0..K-1 *)
RECURSIVE Filtered(_)
Filtered(t) ==
    IF t = 0 THEN [x \in 1..2 |-> RMul(RExp(m.p0[x]), Like(0, x - 1))]
    ELSE Force(Filtered(t - 1), LAMBDA p :
         Ev([x \in 1..2 |-> RMul(Like(t, x - 1), RAdd(RMul(p[1], Move(t - 1, 0, x - 1)), RMul(p[2], Move(t - 1, 1, x - 1))))]))

PathP(p) ==
    LET RECURSIVE W(_)
        W(t) == IF t = 0 THEN RMul(RExp(m.p0[p[1] + 1]), Like(0, p[1]))
                ELSE RMul(W(t - 1), RMul(Move(t - 1, p[t], p[t + 1]), Like(t, p[t + 1])))
    IN W(T - 1)
Paths == [1..T -> X]
Evidence == SumOver(PathP, Paths)
Post == Ev([p \in Paths |-> RDiv(PathP(p), Evidence)])
Same(a, b) == RClose(a, b, "1e-20", "1e-20")
Markov == REq(m.h[2][2], 0)
Possible == RLt(0, Evidence)

(* a data set of which the particles of every time are the states *)
Case(method, R) == [T |-> T, N |-> 2, m |-> m, u |-> U, y |-> Y, R |-> R, method |-> method,
                    st |-> [t \in 1..T |-> [x |-> <<0, 1>>, w |-> Lgs(Filtered(t - 1)), anc |-> <<1, 0>>]]]

-----------------------------------------------------------------------------
BackwardPath(c, p) ==          \* probability of path p
    LET RECURSIVE W(_)
        W(t) == IF t = T - 1 THEN Probs(c.st[T].w)[p[T] + 1]
                ELSE Force(W(t + 1), LAMBDA v : IF REq(v, 0) THEN 0
                     ELSE RMul(v, BackwardProbs(c, t, p[t + 2], -1)[p[t + 1] + 1]))
    IN W(0)
Backward == (go /\ Possible /\ Markov) =>
    LET c == Ev(Case("full", 0)) IN \A p \in Paths : Same(BackwardPath(c, p), Post[p])

(* contexts that can occur: the future state is reachable *)
Contexts == {<<t, x1, x2>> \in (0..(T - 2)) \X X \X (X \cup {-1}) : (x2 = -1) = (t = T - 2)}
Reach(c, x) == SomeFinite([i \in 1..2 |-> RAdd(c.st[x[1] + 1].w[i], FutureOfParticle(c, x[1], i, x[2], x[3]))])

(* one attempt: propose by weight, accept with density over bound *)
RECURSIVE AfterTries(_, _, _, _, _)
AfterTries(w, d, bound, full, R) ==
    IF R = 0 THEN full
    ELSE LET acc == [i \in 1..2 |-> RMul(w[i], RExp(RSub(d[i], bound)))]
             rest == RSub(1, RSum(acc))
             next == AfterTries(w, d, bound, full, R - 1)
         IN Ev([i \in 1..2 |-> RAdd(acc[i], RMul(rest, next[i]))])
Rejection == (go /\ Possible) =>
    LET c == Ev(Case("rs", 0)) IN
    \A x \in Contexts : Reach(c, x) =>
        LET w == Probs(c.st[x[1] + 1].w)
            d == Ev([i \in 1..2 |-> FutureOfParticle(c, x[1], i, x[2], x[3])])
            full == BackwardProbs(c, x[1], x[2], x[3])
        IN \A slack \in {"0", "0.5"} :
            LET got == AfterTries(w, d, RAdd(RMaxSeq(d), slack), full, Tries)
            IN \A i \in 1..2 : Same(got[i], full[i])

Metropolis == (go /\ Possible) =>
    LET c == Ev(Case("mcmc", 1)) IN
    \A x \in Contexts : Reach(c, x) =>
        LET full == BackwardProbs(c, x[1], x[2], x[3])
            d == Ev([i \in 1..2 |-> FutureOfParticle(c, x[1], i, x[2], x[3])])
            next == MHStep(full, Probs(c.st[x[1] + 1].w), [i \in 1..2 |-> [j \in 1..2 |-> Accept(d[j], d[i])]])
        IN \A i \in 1..2 : Same(next[i], full[i])

-----------------------------------------------------------------------------
Invariant(method) ==
    LET c == Ev(Case(method, 1))
    IN \A t \in 0..(T - 1) : LET new == Ev(MhipsSite(c, Post, t)) IN \A p \in Paths : Same(new[p], Post[p])
Mhips == (go /\ Possible /\ Markov) => Invariant("mhips")
(* proposing from the dynamics given the past, target without the past: needs a Markovian model *)
MhipsRed == (go /\ Possible /\ Markov) => Invariant("mhips_reduced")

(* MHBP: target of (x_t, a) given the future f *)
Mhbp == (go /\ Possible /\ Markov) =>
    LET c == Ev(Case("mhbp", 1))
        n == 4
    IN \A t \in 0..(T - 1) : \A f \in Futures(c, T - 1 - t) :
        LET pw == IF t = 0 THEN <<1, 0>> ELSE Probs(c.st[t].w)
            tgt(s) == LET xp == IF t = 0 THEN -1 ELSE XS(c, t - 1)[SA(c, s)]
                          lp == RAdd(RAdd(PastLogP(c, t, -1, xp, SX(c, s)), MeasLogP(c, t, xp, SX(c, s))),
                                     NextLogP(c, t, xp, SX(c, s), At(f, 1), At(f, 2)))
                      IN IF RFinite(lp) THEN RMul(pw[SA(c, s)], RExp(lp)) ELSE 0
            e == Ev([s \in 1..n |-> tgt(s)])
        IN REq(RSum(e), 0) \/
           LET v == Normalise(e)
               w == MhbpChain(c, t, v, f)
           IN \A s \in 1..n : Same(v[s], w[s])
=============================================================================
