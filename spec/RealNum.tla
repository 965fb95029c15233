------------------------------ MODULE RealNum ------------------------------
(***************************************************************************)
(* Real numbers for TLC. A real is an integer or a decimal numeral in a     *)
(* string ("0.25", "-1.5E-7", "nan", "inf", "-inf"). The bodies below are   *)
(* placeholders: TLC evaluates these operators with vp.RealNumOverrides     *)
(* (40 significant digits, IEEE-like rules for nan and the infinities).     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

Ev(x) == x                                   \* x, fully evaluated

RAdd(a, b) == CHOOSE x : TRUE
RSub(a, b) == CHOOSE x : TRUE
RMul(a, b) == CHOOSE x : TRUE
RDiv(a, b) == CHOOSE x : TRUE
RNeg(a) == CHOOSE x : TRUE
RExp(a) == CHOOSE x : TRUE
RLog(a) == CHOOSE x : TRUE
RSqrt(a) == CHOOSE x : TRUE
RLt(a, b) == CHOOSE x : TRUE
RLe(a, b) == CHOOSE x : TRUE
REq(a, b) == CHOOSE x : TRUE
RFinite(a) == CHOOSE x : TRUE
RIsNaN(a) == CHOOSE x : TRUE
RFloor(a) == CHOOSE x : TRUE                 \* an integer
RClose(a, b, rtol, atol) == CHOOSE x : TRUE  \* |a-b| <= rtol*max(|a|,|b|) + atol
RNorm(a) == CHOOSE x : TRUE                  \* canonical numeral
RSum(s) == CHOOSE x : TRUE                   \* sum of a sequence
RMaxSeq(s) == CHOOSE x : TRUE                \* maximum of a sequence
RDot(s, t) == CHOOSE x : TRUE                \* sum of products
=============================================================================
