--------------------------------- MODULE EM ---------------------------------
(***************************************************************************)
(* Expectation maximization.                                                *)
(*                                                                          *)
(* One iteration:  set the parameters, run filter and smoother, maximize.   *)
(* The stochastic approximation variants remember the trajectories of       *)
(* earlier iterations: the memory is a sequence of [tr, w], and every       *)
(* iteration scales what it holds by 1 - alpha before adding the new        *)
(* trajectories with total weight alpha.                                    *)
(***************************************************************************)
EXTENDS Reals

(* the k-th iteration's entry of a schedule; the last one is kept *)
Sched(s, k) == s[IF k <= Len(s) THEN k ELSE Len(s)]

(* the first iteration has nothing to forget *)
Remember(mem, new, alpha) ==
    IF mem = <<>> THEN new
    ELSE [i \in 1..Len(mem) |-> [tr |-> mem[i].tr, w |-> RMul(RSub(1, alpha), mem[i].w)]]
         \o [i \in 1..Len(new) |-> [tr |-> new[i].tr, w |-> RMul(alpha, new[i].w)]]

Positive(e) == RLt(0, e.w)
Forget0(mem) == SelectSeq(mem, Positive)

Total(mem) == RSum([i \in 1..Len(mem) |-> mem[i].w])
Scaled(mem) == LET s == Total(mem) IN Ev([i \in 1..Len(mem) |-> [tr |-> mem[i].tr, w |-> RDiv(mem[i].w, s)]])

(* percentile with linear interpolation *)
RECURSIVE Sorted(_)
Sorted(s) ==
    IF s = <<>> THEN <<>>
    ELSE LET k == CHOOSE i \in DOMAIN s : \A j \in DOMAIN s : RLe(s[i], s[j])
         IN <<s[k]>> \o Sorted(SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s)))
Percentile(s, p) ==
    LET o == Sorted(s)
        h == RDiv(RMul(Len(s) - 1, p), 100)
        k == RFloor(h)
    IN IF k + 1 >= Len(s) THEN o[Len(s)]
       ELSE RAdd(o[k + 1], RMul(RSub(h, k), RSub(o[k + 2], o[k + 1])))

(* small weights (<= eps) are dropped, but only from the lowest pct percent; *)
(* zero weights always                                                        *)
DropThreshold(mem, eps, pct) ==
    LET w == [i \in 1..Len(mem) |-> mem[i].w]
        q == Percentile(w, pct)
        low == {i \in 1..Len(w) : RLt(w[i], q)}
        wl == IF low = {} THEN 0 ELSE RMax2(0, w[CHOOSE i \in low : \A j \in low : RLe(w[j], w[i])])
    IN RMin2(eps, wl)
Discard(mem, eps, pct) ==
    IF mem = <<>> THEN mem
    ELSE LET th == DropThreshold(mem, eps, pct)
             keep(e) == RLt(th, e.w)
         IN SelectSeq(mem, keep)
Newest(mem, n) == IF n > 0 /\ Len(mem) > n THEN SubSeq(mem, Len(mem) - n + 1, Len(mem)) ELSE mem

(* the memory after an iteration, for each variant *)
SAStep(variant, mem, new, alpha, eps, pct, maxtraj) ==
    LET m == Remember(mem, new, alpha)
    IN CASE variant = "saem" -> Forget0(m)
         [] variant = "psaem" -> Scaled(Newest(Discard(m, eps, pct), maxtraj))
         [] variant = "psaem2" -> Scaled(Discard(m, eps, pct))

(* the default step sizes: 1 for 100 iterations, then decreasing *)
DefaultAlpha(i) == IF i <= 100 THEN 1 ELSE RExp(RMul("-0.51", RLog(i - 100)))

(* equal as weighted sets of trajectories *)
WeightOf(tr, m) == RSum([i \in 1..Len(m) |-> IF m[i].tr = tr THEN m[i].w ELSE 0])
SameMemory(a, b) ==
    \A tr \in {a[i].tr : i \in 1..Len(a)} \cup {b[i].tr : i \in 1..Len(b)} :
        RClose(WeightOf(tr, a), WeightOf(tr, b), "1e-9", "1e-12")

(* the weight of an entry that is n iterations old: alpha_k * prod (1-alpha_j) *)
RECURSIVE Decay(_, _, _)
Decay(alphas, k, i) == IF k = i THEN 1 ELSE RMul(RSub(1, alphas[k]), Decay(alphas, k - 1, i))
ProductWeight(alphas, k, i) == RMul(IF i = 1 THEN 1 ELSE alphas[i], Decay(alphas, k, i))
=============================================================================
