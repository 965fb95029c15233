------------------------------ MODULE MCKalman ------------------------------
(***************************************************************************)
(* Kalman filtering as a state machine next to the batch law. The state     *)
(* holds both the recursive belief (textbook recursions below) and the      *)
(* joint law of the whole linear trajectory, built only from "extend" and   *)
(* "observe" as TraceGauss does. Measurements may be missing at any step;   *)
(* the nonlinear path, where there is one, is arbitrary.                    *)
(*   Filtering   the recursive belief is the joint law's last marginal      *)
(*   Smoothing   the Rauch-Tung-Striebel recursion over the stored beliefs  *)
(*               gives the joint law's marginals and lag one covariances    *)
(*   Evidence    the sum of the one step log-likelihoods is the density of  *)
(*               all measurements (and nonlinear states) at once            *)
(*   Information measuring twice is measuring once the stacked measurement, *)
(*               in either order                                            *)
(*   Backward    drawing backwards, every conditional averaged over the law *)
(*               of the successor gives the smoothing law                   *)
(*   Marginal    the future's log-density as computed from a belief alone   *)
(***************************************************************************)
EXTENDS GaussModels, TLC

CONSTANTS Kinds, Steps, YVals, Paths

VARIABLES kind, bel, joint, ll, ys, xs
vars == <<kind, bel, joint, ll, ys, xs>>

YQ == {<<>>, <<"0.7">>}
YT == {<<>>, <<"-1.2">>, <<"0.7">>}
PathsQ == {<<"0.3">>}
PathsT == {<<"0.3">>, <<"-0.9">>}

K(c, A) == [k |-> c, m |-> A]
Ltv == [lxi |-> 0, lz |-> 2, hier |-> TRUE, ysh |-> 0,
        Az |-> <<K("1", <<<<"0.9", "0.3">>, <<"-0.2", "0.7">>>>), K("t", <<<<"0.1", "0">>, <<"0", "-0.1">>>>)>>,
        fz |-> <<K("1", <<<<"0.5">>, <<"-0.25">>>>)>>,
        Qz |-> <<K("1", <<<<"0.8", "0.2">>, <<"0.2", "0.5">>>>)>>,
        C |-> <<K("1", <<<<"1", "0.5">>>>)>>, h |-> <<K("1", <<<<"0.2">>>>)>>, R |-> <<K("1", <<<<"0.4">>>>)>>,
        z0 |-> <<K("1", <<<<"1">>, <<"-1">>>>)>>, P0 |-> <<K("1", <<<<"1.5", "0.3">>, <<"0.3", "0.9">>>>)>>]
Mix == [Ltv EXCEPT !.lxi = 1, !.hier = FALSE] @@ 
       [Axi |-> <<K("1", <<<<"0.4", "-0.6">>>>), K("x1", <<<<"0.3", "0">>>>)>>,
        fxi |-> <<K("x1", <<<<"0.8">>>>)>>, Qxi |-> <<K("1", <<<<"0.6">>>>)>>,
        Qxz |-> <<K("1", <<<<"0.1", "-0.15">>>>)>>, xi0 |-> <<K("1", <<<<"0">>>>)>>, Pxi0 |-> <<K("1", <<<<"1">>>>)>>]
Hier == [[Ltv EXCEPT !.lxi = 1] @@ 
       [fxi |-> <<K("x1", <<<<"0.8">>>>)>>, Qxi |-> <<K("1", <<<<"0.6">>>>)>>, mn |-> <<"0", "0">>,
        xi0 |-> <<K("1", <<<<"0">>>>)>>, Pxi0 |-> <<K("1", <<<<"1">>>>)>>]
        EXCEPT !.Az = <<K("1", <<<<"0.9", "0.3">>, <<"-0.2", "0.7">>>>), K("x1", <<<<"0.2", "0">>, <<"0", "0.1">>>>)>>]
Mod(k) == CASE k = "ltv" -> Ltv [] k = "mix" -> Mix [] k = "hier" -> Hier
m == Mod(kind)

Same(a, b) == RClose(a, b, "1e-25", "1e-25")
SameD(d, e) == VClose(d.m, e.m, "1e-25", "1e-25") /\ MClose(d.S, e.S, "1e-25", "1e-25")
SameM(A, B) == MClose(A, B, "1e-25", "1e-25")

A0(k, t) == At(xs[k], 0, t, <<>>)
N == 2
T == Len(bel)

(* the textbook: gain form of the update, Joseph form of the covariance *)
Gain(P, C, R) == LET S == MAdd(Sandwich(C, P), R) IN MM(MM(P, MT(C)), MInv(S))
Joseph(P, C, R) == LET G == Gain(P, C, R)  I == MSub(Eye(Rows(P)), MM(G, C))
                   IN MAdd(Sandwich(I, P), Sandwich(G, R))
KalmanUpdate(d, C, h, R, y) ==
    Normal(VAdd(d.m, MV(Gain(d.S, C, R), VSub(y, VAdd(MV(C, d.m), h)))), Joseph(d.S, C, R))
(* for a mixed model: xi' is a measurement of z with noise correlated with  *)
(* the process noise; decorrelate it as the literature does                 *)
MixPredict(d, a, xin) ==
    LET Ax == MF(m.Axi, a)  Qx == MF(m.Qxi, a)  X == MF(m.Qxz, a)
        L == MM(MT(X), MInv(Qx))
        u == KalmanUpdate(d, Ax, VF(m.fxi, a), Qx, xin)
        Ab == MSub(MF(m.Az, a), MM(L, Ax))
        Qb == MSub(MF(m.Qz, a), MM(L, X))
        fb == VAdd(VF(m.fz, a), MV(L, VSub(xin, VF(m.fxi, a))))
    IN Normal(VAdd(MV(Ab, u.m), fb), MAdd(Sandwich(Ab, u.S), Qb))
Predict(d, a, xin) ==
    IF kind = "mix" THEN MixPredict(d, a, xin)
    ELSE Normal(VAdd(MV(MF(m.Az, a), d.m), VF(m.fz, a)), MAdd(Sandwich(MF(m.Az, a), d.S), MF(m.Qz, a)))
Correct(d, a, y) == IF y = <<>> THEN d ELSE KalmanUpdate(d, MF(m.C, a), VF(m.h, a), MF(m.R, a), y)
LogLik(d, a, y) == IF y = <<>> THEN 0
    ELSE LogPdf(y, VAdd(MV(MF(m.C, a), d.m), VF(m.h, a)), MAdd(Sandwich(MF(m.C, a), d.S), MF(m.R, a)))

Us(n) == [k \in 1..n |-> 0]
Batch(x, y) == PathLaw(m, x, Us(Len(x)), y, <<>>, 1, Belief0(m, At(x[1], 0, 0, <<>>)))

(* the initial density of the nonlinear state is left out of ll *)
Init == /\ kind \in Kinds
        /\ \E y \in YVals, x \in (IF kind = "ltv" THEN {<<>>} ELSE Paths) :
              /\ ys = <<y>> /\ xs = <<x>>
              /\ LET a == At(x, 0, 0, <<>>)
                     d0 == Belief0(m, a)
                 IN bel = <<Correct(d0, a, y)>> /\ ll = LogLik(d0, a, y)
              /\ joint = Ev(PathLaw(m, <<x>>, Us(1), <<y>>, <<>>, 1, Belief0(m, At(x, 0, 0, <<>>))))
Extend1 == \E y \in YVals, x \in (IF kind = "ltv" THEN {<<>>} ELSE Paths) :
    /\ T < Steps
    /\ xs' = Append(xs, x) /\ ys' = Append(ys, y)
    /\ LET a == A0(T, T - 1)
           b == At(x, 0, T, <<>>)
           p == Predict(bel[T], a, x)
       IN /\ bel' = Append(bel, Correct(p, b, y))
          /\ ll' = RAdd(ll, RAdd(LogLik(p, b, y), IF kind = "ltv" THEN 0 ELSE LogPNextXi(m, bel[T], a, x)))
    /\ joint' = Ev(Batch(xs', ys'))
    /\ kind' = kind
Next == Extend1
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Filtering == SameD(bel[T], ZAt(m, joint, T))

RECURSIVE Rts(_)
Rts(k) ==          \* smoothed belief and lag one covariance at k
    IF k = T THEN [d |-> bel[T], M |-> <<>>]
    ELSE Force(Rts(k + 1), LAMBDA n :
         LET a == A0(k, k - 1)
             (* the belief about z_k once xi_(k+1) is known, and the dynamics *)
             (* that go with it                                                *)
             mix == kind = "mix"
             L == MM(MT(MF(m.Qxz, a)), MInv(MF(m.Qxi, a)))
             dk == IF mix THEN KalmanUpdate(bel[k], MF(m.Axi, a), VF(m.fxi, a), MF(m.Qxi, a), xs[k + 1]) ELSE bel[k]
             A == IF mix THEN MSub(MF(m.Az, a), MM(L, MF(m.Axi, a))) ELSE MF(m.Az, a)
             p == Predict(bel[k], a, xs[k + 1])
             J == MM(MM(dk.S, MT(A)), MInv(p.S))
         IN Ev([d |-> Normal(VAdd(dk.m, MV(J, VSub(n.d.m, p.m))), MAdd(dk.S, Sandwich(J, MSub(n.d.S, p.S)))),
                M |-> MM(J, n.d.S)]))
Smoothing == \A k \in 1..T : Force(Rts(k), LAMBDA r :
    SameD(r.d, ZAt(m, joint, k)) /\ (k < T => SameM(r.M, LagCov(m, joint, k))))

(* everything that is observed at once: z_1..z_T, then xi and y *)
RECURSIVE All(_, _, _)
All(k, d, zi) ==        \* zi: where z_k is in d; returns the joint law of the observed
    LET a == A0(k, k - 1)
        pick(A) == Ev([i \in 1..Rows(A) |-> [j \in 1..Dim(d) |-> IF j \in zi..(zi + N - 1) THEN A[i][j - zi + 1] ELSE 0]])
        e == IF ys[k] = <<>> THEN d ELSE Extend(d, pick(MF(m.C, a)), VF(m.h, a), MF(m.R, a))
        pad(A) == HStack(pick(A), Zeros(Rows(A), Dim(e) - Dim(d)))
    IN IF k = T THEN e
       ELSE IF kind = "ltv" THEN Force(Extend(e, pad(MF(m.Az, a)), VF(m.fz, a), MF(m.Qz, a)), LAMBDA x : All(k + 1, x, Dim(e) + 1))
       ELSE IF kind = "hier"
       THEN Force(Extend(Extend(e, Zeros(1, Dim(e)), VF(m.fxi, a), MF(m.Qxi, a)),
                         HStack(pad(MF(m.Az, a)), Zeros(N, 1)), VF(m.fz, a), MF(m.Qz, a)), LAMBDA x : All(k + 1, x, Dim(e) + 2))
       ELSE Force(Extend(e, pad(StackA(m, a)), StackF(m, a), StackQ(m, a)), LAMBDA x : All(k + 1, x, Dim(e) + 2))
RECURSIVE Where(_, _)     \* indices and values of the observed, in that order
Where(k, o) ==
    LET yi == IF ys[k] = <<>> THEN <<>> ELSE <<<<o + N, ys[k][1]>>>>
        o2 == o + N + Len(yi)
        xi == IF k = T \/ kind = "ltv" THEN <<>> ELSE <<<<o2, xs[k + 1][1]>>>>
    IN yi \o xi \o (IF k = T THEN <<>> ELSE Where(k + 1, o2 + Len(xi)))
Evidence ==
    LET w == Where(1, 1)
        I == [i \in 1..Len(w) |-> w[i][1]]
        v == [i \in 1..Len(w) |-> w[i][2]]
        all == Ev(All(1, Belief0(m, A0(1, 0)), 1))
    IN IF w = <<>> THEN Same(ll, 0)
       ELSE LET g == Marg(all, I) IN Same(ll, LogPdf(v, g.m, g.S))

Information ==
    T = 1 =>
    LET d == bel[1]  a == A0(1, 0)  b == A0(1, 1)
        C2 == <<<<"-0.3", "1">>>>  R2 == <<<<"0.9">>>>
        one(x) == Observe(x, MF(m.C, a), VF(m.h, a), MF(m.R, a), <<"0.1">>)
        two(x) == Observe(x, C2, <<"0">>, R2, <<"2">>)
        both == Observe(d, VStack(MF(m.C, a), C2), VF(m.h, a) \o <<"0">>,
                        Block(MF(m.R, a), <<<<0>>>>, <<<<0>>>>, R2), <<"0.1", "2">>)
        ab == two(one(d).d)  ba == one(two(d).d)
    IN /\ SameD(ab.d, both.d) /\ SameD(ba.d, both.d)
       /\ Same(RAdd(ab.lp, one(d).lp), both.lp) /\ Same(RAdd(ba.lp, two(d).lp), both.lp)

(* z_k given z_(k+1), xi_(k+1): affine in z_(k+1); averaged over its law *)
Backward == T >= 2 =>
    LET k == T - 1
        a == A0(k, k - 1)
        at0 == BeliefBack(m, bel[k], a, xs[T], <<"0", "0">>)
        d1 == BeliefBack(m, bel[k], a, xs[T], <<"1", "0">>)
        d2 == BeliefBack(m, bel[k], a, xs[T], <<"0", "1">>)
        J == MT(<<VSub(d1.m, at0.m), VSub(d2.m, at0.m)>>)
    IN SameD(Push(bel[T], J, at0.m, at0.S), ZAt(m, joint, k))

Marginal == T >= 2 =>
    (* ll is filter evidence up to 1 plus the future given the belief at 1 *)
    LET a == A0(1, 0)
        first == LogLik(Belief0(m, a), a, ys[1])
    IN kind = "ltv" \/ Same(ll, RAdd(first, FutureLogP(m, xs, Us(T), ys, <<>>, 1, bel[1], 0)))
=============================================================================
