-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* Exact laws of the random choices the filters and smoothers make, as      *)
(* sequences of [v |-> outcome, p |-> probability].                         *)
(***************************************************************************)
EXTENDS Reals, Resampling

RECURSIVE SumOver(_, _)
SumOver(F(_), S) == IF S = {} THEN 0 ELSE LET a == CHOOSE a \in S : TRUE IN RAdd(F(a), SumOver(F, S \ {a}))

(* systematic resampling: the outcome is a function of one uniform offset   *)
(* and constant between the points where some n*cum_i crosses the grid      *)
Cum(p) == Ev([i \in 1..Len(p) |-> RSum(SubSeq(p, 1, i))])
Snap(a) == IF RClose(a, 0, 0, "1e-20") THEN 0 ELSE IF RClose(a, 1, 0, "1e-20") THEN 0 ELSE a
Frac(a) == Snap(RSub(a, RFloor(a)))

RECURSIVE Insert(_, _)
Insert(s, a) == IF s = <<>> THEN <<a>>
                ELSE IF RClose(a, s[1], 0, "1e-20") THEN s
                ELSE IF RLt(a, s[1]) THEN <<a>> \o s ELSE <<s[1]>> \o Insert(Tail(s), a)
RECURSIVE InsertAll(_, _)
InsertAll(s, v) == IF v = <<>> THEN s ELSE InsertAll(Insert(s, v[1]), Tail(v))

CountsAt(c, n, u) ==
    LET upto(i) == IF i = 0 THEN 0 ELSE IF i = Len(c) THEN n ELSE RCeil(RSub(RMul(n, c[i]), u))
    IN [i \in 1..Len(c) |-> upto(i) - upto(i - 1)]

SystematicLaw(p, n) ==
    Force(Cum(p), LAMBDA c :
    Force(InsertAll(<<0, 1>>, [i \in 1..Len(c) |-> Frac(RMul(n, c[i]))]), LAMBDA b :
        Ev([k \in 1..(Len(b) - 1) |-> [v |-> CountsAt(c, n, RMul("0.5", RAdd(b[k], b[k + 1]))),
                                       p |-> RSub(b[k + 1], b[k])]])))

(* the ancestors (1-based) that go with a count vector *)
RECURSIVE AncestorsFrom(_, _)
AncestorsFrom(c, i) == IF i > Len(c) THEN <<>> ELSE [k \in 1..c[i] |-> i] \o AncestorsFrom(c, i + 1)
Ancestors(c) == AncestorsFrom(c, 1)

ExpectLaw(law, F(_)) == RSum([k \in 1..Len(law) |-> RMul(law[k].p, F(law[k].v))])
=============================================================================
