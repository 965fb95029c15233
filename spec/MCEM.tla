-------------------------------- MODULE MCEM --------------------------------
(***************************************************************************)
(* The memory of the stochastic approximation variants as a state machine   *)
(* (what), and the inequality that makes expectation maximization work      *)
(* (why), on the operators recorded estimations are judged by.              *)
(*   Total       the weights in memory always sum to one                    *)
(*   Weights     without discarding, a trajectory of iteration i weighs     *)
(*               alpha_i (1 - alpha_(i+1)) .. (1 - alpha_k) times its share *)
(*   Fresh       alpha = 1 forgets everything older                         *)
(*   Bounded     at most maxtraj trajectories, the newest ones              *)
(*   OnlySmall   nothing heavier than eps is ever discarded, and never more *)
(*               than the lowest percentage                                 *)
(*   Inequality  log p(y; b) - log p(y; a) >= Q(b, a) - Q(a, a)             *)
(***************************************************************************)
EXTENDS EMGauss, TLC

CONSTANTS Variants, Alphas, Iterations, Epss, Pcts, Maxs, NewSets, Ths, Ys

VARIABLES v, eps, pct, maxtraj, mem, prev, alphas, shares, em
vars == <<v, eps, pct, maxtraj, mem, prev, alphas, shares, em>>

AlphasQ == {"0", "0.5", "1"}
AlphasT == {"0", "0.25", "0.5", "1"}
NewQ == {<<"0.5", "0.5">>, <<"0.9", "0.1">>}
NewT == {<<"1">>, <<"0.5", "0.5">>, <<"0.9", "0.1">>, <<"0.3", "0", "0.7">>}
EpssQ == {"0", "0.2"}
EpssT == {"0", "0.1", "0.3"}
ThsQ == {<<"0.3">>, <<"0.9">>}
ThsT == {<<"-0.5">>, <<"0">>, <<"0.4">>, <<"0.8">>, <<"1.1">>}
YsQ == {<<<<>>, <<"0.6">>, <<"-0.4">>>>, <<<<"1">>, <<"0.6">>, <<"2">>>>}
YsT == {<<a, b, c>> : a \in {<<>>, <<"1">>}, b \in {<<>>, <<"-0.6">>}, c \in {<<"2">>, <<"0.3">>}}

K == Len(alphas)
None == [y |-> <<>>, a |-> <<>>, b |-> <<>>]
Init == \/ /\ em = None
           /\ v \in Variants /\ eps \in Epss /\ pct \in Pcts /\ maxtraj \in Maxs
           /\ (v = "saem" => eps = "0" /\ pct = 0 /\ maxtraj = 0)
           /\ (v = "psaem2" => maxtraj = 0)
           /\ mem = <<>> /\ prev = <<>> /\ alphas = <<>> /\ shares = <<>>
        \/ /\ em \in [y : Ys, a : Ths, b : Ths]
           /\ v = "em" /\ eps = "0" /\ pct = 0 /\ maxtraj = 0
           /\ mem = <<>> /\ prev = <<>> /\ alphas = <<>> /\ shares = <<>>

New(n, k) == [j \in 1..Len(n) |-> [tr |-> 10 * k + j, w |-> n[j]]]
Norm(m) == [i \in 1..Len(m) |-> [tr |-> m[i].tr, w |-> RNorm(m[i].w)]]
Iterate(n, a) ==
    /\ v # "em" /\ K < Iterations
    /\ alphas' = Append(alphas, a)
    /\ shares' = Append(shares, n)
    /\ prev' = mem
    /\ mem' = Norm(SAStep(v, mem, New(n, K + 1), a, eps, pct, maxtraj))
    /\ UNCHANGED <<v, eps, pct, maxtraj, em>>
(* the inequality is checked after a step of its own, in parallel *)
Go == v = "em" /\ K = 0 /\ alphas' = <<"go">> /\ UNCHANGED <<v, eps, pct, maxtraj, mem, prev, shares, em>>
Next == Go \/ \E n \in NewSets, a \in Alphas : Iterate(n, a)
Spec == Init /\ [][Next]_vars

Same(x, y) == RClose(x, y, "1e-20", "1e-20")
Running == v # "em" /\ K > 0
Whole == Running /\ eps = "0" /\ (maxtraj = 0)
TotalOne == (Running /\ mem # <<>>) => Same(Total(mem), 1)
Weights == Whole => \A k \in 1..K : \A j \in 1..Len(shares[k]) :
    Same(WeightOf(10 * k + j, mem), RMul(ProductWeight(alphas, K, k), shares[k][j]))
Fresh == (Running /\ alphas[K] = "1") => \A i \in 1..Len(mem) : mem[i].tr \div 10 = K
Bounded == (Running /\ v = "psaem" /\ maxtraj > 0) => Len(mem) <= maxtraj
Positives == Running => \A i \in 1..Len(mem) : RLt(0, mem[i].w)
OnlySmall == (Running /\ v # "saem") =>
    LET all == Remember(prev, New(shares[K], K), alphas[K])
        kept(i) == \E j \in 1..Len(mem) : mem[j].tr = all[i].tr
        gone == {i \in 1..Len(all) : ~kept(i) /\ RLt(0, all[i].w)}
    IN (maxtraj = 0) =>
       /\ \A i \in gone : RLe(all[i].w, eps)
       /\ 100 * Cardinality(gone) <= pct * (Len(all) - 1) + 100
       /\ \A i \in gone : \A j \in 1..Len(all) : kept(j) => RLt(all[i].w, all[j].w)

Kf(c, A) == [k |-> c, m |-> A]
Lin == [lxi |-> 0, lz |-> 1, hier |-> TRUE, ysh |-> 0,
        Az |-> <<Kf("p1", <<<<"1">>>>)>>, fz |-> <<Kf("u", <<<<"0.5">>>>)>>, Qz |-> <<Kf("1", <<<<"0.3">>>>)>>,
        C |-> <<Kf("1", <<<<"1">>>>)>>, h |-> <<Kf("p1", <<<<"0.2">>>>)>>, R |-> <<Kf("1", <<<<"0.4">>>>)>>,
        z0 |-> <<Kf("1", <<<<"1">>>>)>>, P0 |-> <<Kf("1", <<<<"0.8">>>>)>>]
Inequality == (v = "em" /\ alphas # <<>>) =>
    LET c == [m |-> Lin, y |-> em.y, u |-> <<"1", "0", "-1">>]
    IN Force(Law(c, em.a), LAMBDA J :
       RLe(RSub(Objective(c, em.b, J.d), Objective(c, em.a, J.d)),
           RAdd("1e-20", RSub(Law(c, em.b).lp, J.lp))))
=============================================================================
