------------------------------ MODULE Smoother ------------------------------
(***************************************************************************)
(* The laws of the smoothers, given the outcome of the forward filter.      *)
(*   c.T, c.N, c.m     length, number of particles, tables of the model     *)
(*   c.u[t+1], c.y[t+1] input and measurement of time t (-1: none)          *)
(*   c.st[t+1]         particles of time t: x, w (log-weights), anc         *)
(* m.g couples x_t and x_{t+2}, m.h couples x_{t-1} and x_t in the density  *)
(* of the whole future (x_{t-1} and x_{t+1} in that of one step), m.hm      *)
(* couples x_{t-1} and x_t in the density of the measurement of time t; all *)
(* are zero for Markovian models. m.lps is the proposal of MHIPS and MHBP.  *)
(***************************************************************************)
EXTENDS Filter

GC(m, x, x2) == m.g[x + 1][x2 + 1]
PS(m, y, xp, xf, x) == m.lps[y + 2][xp + 2][xf + 2][x + 1]
XS(c, t) == c.st[t + 1].x
Par(c, t, i) == c.st[t + 1].anc[i] + 1        \* 1-based index of the parent

(* log-density of the future x1 = x_{t+1}, x2 = x_{t+2} (-1: none) given    *)
(* x_t = x and x_{t-1} = xp (-1: none)                                      *)
FutureLogP(c, t, xp, x, x1, x2) ==
    RAdd(LT(c.m, c.u[t + 1], t, x, x1),
         RAdd(IF x2 = -1 THEN 0 ELSE GC(c.m, x, x2),
              IF xp = -1 THEN 0 ELSE H(c.m, xp, x)))

FutureOfParticle(c, t, i, x1, x2) ==
    FutureLogP(c, t, IF t = 0 THEN -1 ELSE XS(c, t - 1)[Par(c, t, i)], XS(c, t)[i], x1, x2)

(* backward simulation: law of the index at t given the chosen future *)
BackwardProbs(c, t, x1, x2) ==
    Probs(Ev([i \in 1..c.N |-> RAdd(c.st[t + 1].w[i], FutureOfParticle(c, t, i, x1, x2))]))

-----------------------------------------------------------------------------
Accept(new, old) == IF ~RFinite(new) THEN 0
                    ELSE IF ~RFinite(old) THEN 1
                    ELSE IF RLe(old, new) THEN 1 ELSE RExp(RSub(new, old))

(* one Metropolis-Hastings step on a distribution v over 1..n with an       *)
(* independent proposal q; A[i][j] accepts j when at i                      *)
MHStep(v, q, A) ==
    LET n == Len(v)
        rej == Ev([i \in 1..n |-> RSub(1, RDot(q, A[i]))])
    IN Ev([j \in 1..n |->
            RAdd(RMul(q[j], RSum([i \in 1..n |-> RMul(v[i], A[i][j])])), RMul(v[j], rej[j]))])

RECURSIVE MHPower(_, _, _, _)
MHPower(v, q, A, R) == IF R = 0 THEN v ELSE MHPower(MHStep(v, q, A), q, A, R - 1)

(* the chain over the particles of time t, started in the parent of the     *)
(* chosen particle i1 of time t+1                                           *)
McmcProbs(c, t, i1, x1, x2) ==
    LET p == Ev([i \in 1..c.N |-> FutureOfParticle(c, t, i, x1, x2)])
        q == Probs(c.st[t + 1].w)
        A == Ev([i \in 1..c.N |-> [j \in 1..c.N |-> Accept(p[j], p[i])]])
        v == [i \in 1..c.N |-> IF i = Par(c, t + 1, i1) THEN 1 ELSE 0]
    IN MHPower(v, q, A, c.R)

KernelProbs(c, t, i1, i2) ==
    LET x1 == XS(c, t + 1)[i1]
        x2 == IF i2 = 0 THEN -1 ELSE XS(c, t + 2)[i2]
    IN CASE c.method \in {"full", "rs", "rsas"} -> BackwardProbs(c, t, x1, x2)
         [] c.method = "mcmc" -> McmcProbs(c, t, i1, x1, x2)
         [] c.method = "ancestor" -> [i \in 1..c.N |-> IF i = Par(c, t + 1, i1) THEN 1 ELSE 0]

-----------------------------------------------------------------------------
(* the forward trajectory that ends in particle i, as states *)
RECURSIVE Genealogy(_, _, _)
Genealogy(c, t, i) ==
    IF t = 0 THEN <<XS(c, 0)[i]>> ELSE Append(Genealogy(c, t - 1, Par(c, t, i)), XS(c, t)[i])

(* the densities a move of x_t is judged by; past xp, xpp, future x1, x2 *)
PastLogP(c, t, xpp, xp, x) ==
    IF t = 0 THEN c.m.p0[x + 1]
    ELSE RAdd(LT(c.m, c.u[t], t - 1, xp, x), IF xpp = -1 THEN 0 ELSE H(c.m, xpp, x))
MeasLogP(c, t, xp, x) ==
    IF c.y[t + 1] = Missing THEN 0
    ELSE RAdd(LL(c.m, c.y[t + 1], t, x), IF xp = -1 THEN 0 ELSE c.m.hm[xp + 1][x + 1])
NextLogP(c, t, xp, x, x1, x2) == IF x1 = -1 THEN 0 ELSE FutureLogP(c, t, xp, x, x1, x2)

At(p, k) == IF k \in DOMAIN p THEN p[k] ELSE -1

(* MHIPS: Gibbs like sweep over the sites of one trajectory, last to first. *)
(* dist: probability of every path (a tuple of states)                      *)
PathSet(c) == [1..c.T -> 0..(c.m.K - 1)]

MhipsSite(c, dist, t) ==
    LET K == c.m.K
        reduced == c.method = "mhips_reduced"
        others(p) == [p EXCEPT ![t + 1] = 0]
        base == {p \in DOMAIN dist : p[t + 1] = 0}
        lq(p, x) == IF reduced THEN (IF t = 0 THEN c.m.p0[x + 1] ELSE LT(c.m, c.u[t], t - 1, At(p, t), x))
                    ELSE PS(c.m, c.y[t + 1], At(p, t), At(p, t + 2), x)
        tgt(p, x) == RAdd(RAdd(MeasLogP(c, t, At(p, t), x), NextLogP(c, t, At(p, t), x, At(p, t + 2), At(p, t + 3))),
                          IF reduced THEN 0
                          ELSE RSub(PastLogP(c, t, At(p, t - 1), At(p, t), x), lq(p, x)))
        q == [p \in base |-> Probs(Ev([k \in 1..K |-> lq(p, k - 1)]))]       \* densities may be of any scale
        r == [p \in base |-> Ev([k \in 1..K |-> tgt(p, k - 1)])]
        new == [p \in base |->
                  MHStep([k \in 1..K |-> dist[[p EXCEPT ![t + 1] = k - 1]]], q[p],
                         Ev([i \in 1..K |-> [j \in 1..K |-> Accept(r[p][j], r[p][i])]]))]
    IN [p \in DOMAIN dist |-> new[others(p)][p[t + 1] + 1]]

RECURSIVE MhipsSweep(_, _, _)
MhipsSweep(c, dist, t) ==
    IF t < 0 THEN dist ELSE MhipsSweep(c, Ev(MhipsSite(c, dist, t)), t - 1)
RECURSIVE MhipsRun(_, _, _)
MhipsRun(c, dist, R) == IF R = 0 THEN dist ELSE MhipsRun(c, MhipsSweep(c, dist, c.T - 1), R - 1)

MhipsLaw(c) ==
    LET p == Probs(c.st[c.T].w)
        gen == [i \in 1..c.N |-> Genealogy(c, c.T - 1, i)]
        start == Ev([q \in PathSet(c) |->
                    RSum([i \in 1..c.N |-> IF \A k \in 1..c.T : gen[i][k] = q[k] THEN p[i] ELSE 0])])
    IN MhipsRun(c, start, c.R)

-----------------------------------------------------------------------------
(* MHBP: at every time a chain over (x_t, index of x_{t-1}). States of the  *)
(* chain are numbered s = x*N + a + 1. D: future states -> law over s       *)
SX(c, s) == (s - 1) \div c.N
SA(c, s) == ((s - 1) % c.N) + 1       \* 1-based
Futures(c, n) == [1..n -> 0..(c.m.K - 1)]

MhbpChain(c, t, v, f) ==
    LET n == c.m.K * c.N
        pw == IF t = 0 THEN [i \in 1..c.N |-> IF i = 1 THEN 1 ELSE 0] ELSE Probs(c.st[t].w)
        xp(s) == IF t = 0 THEN -1 ELSE XS(c, t - 1)[SA(c, s)]
        xpp(s) == IF t < 2 THEN -1 ELSE XS(c, t - 2)[Par(c, t - 1, SA(c, s))]
        lq == Ev([s \in 1..n |-> PS(c.m, c.y[t + 1], xp(s), At(f, 1), SX(c, s))])
        q == Normalise(Ev([s \in 1..n |-> RMul(pw[SA(c, s)], RExp(lq[s]))]))
        r == Ev([s \in 1..n |->
                RSub(RAdd(RAdd(PastLogP(c, t, xpp(s), xp(s), SX(c, s)), MeasLogP(c, t, xp(s), SX(c, s))),
                          NextLogP(c, t, xp(s), SX(c, s), At(f, 1), At(f, 2))), lq[s])])
        A == Ev([i \in 1..n |-> [j \in 1..n |-> Accept(r[j], r[i])]])
    IN MHPower(v, q, A, c.R)

(* at t=0 there is no index, all weight is kept on the first one *)
StartStates(c, t, pr) ==
    Ev([s \in 1..(c.m.K * c.N) |->
        RSum([i \in 1..c.N |-> IF XS(c, t)[i] = SX(c, s) /\ (IF t = 0 THEN 1 ELSE Par(c, t, i)) = SA(c, s)
                               THEN pr[i] ELSE 0])])

RECURSIVE MhbpDown(_, _, _)
MhbpDown(c, t, D) ==
    LET E == Ev([f \in DOMAIN D |-> MhbpChain(c, t, D[f], f)])
    IN IF t = 0
       THEN Ev([p \in PathSet(c) |->
                RSum([a \in 1..c.N |-> E[[k \in 1..(c.T - 1) |-> p[k + 1]]][p[1] * c.N + a]])])
       ELSE MhbpDown(c, t - 1,
                Ev([f \in Futures(c, c.T - t) |->
                    StartStates(c, t - 1, Ev([i \in 1..c.N |->
                        E[[k \in 1..(c.T - 1 - t) |-> f[k + 1]]][f[1] * c.N + i]]))]))

MhbpLaw(c) == MhbpDown(c, c.T - 1, [f \in Futures(c, 0) |-> StartStates(c, c.T - 1, Probs(c.st[c.T].w))])

PathLaw(c) == IF c.method = "mhbp" THEN MhbpLaw(c) ELSE MhipsLaw(c)
=============================================================================
