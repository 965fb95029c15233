------------------------------- MODULE LinAlg -------------------------------
(***************************************************************************)
(* Matrices over RealNum: a vector is a sequence of reals, a matrix a       *)
(* sequence of rows.                                                        *)
(***************************************************************************)
EXTENDS Reals

Rows(A) == Len(A)
Cols(A) == Len(A[1])
Zeros(r, c) == [i \in 1..r |-> [j \in 1..c |-> 0]]
Eye(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]
MT(A) == Ev([j \in 1..Cols(A) |-> [i \in 1..Rows(A) |-> A[i][j]]])
MAdd(A, B) == Ev([i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> RAdd(A[i][j], B[i][j])]])
MSub(A, B) == Ev([i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> RSub(A[i][j], B[i][j])]])
MScale(k, A) == Ev([i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> RMul(k, A[i][j])]])
MM(A, B) == LET T == MT(B) IN Ev([i \in 1..Rows(A) |-> [j \in 1..Len(T) |-> RDot(A[i], T[j])]])
MV(A, x) == Ev([i \in 1..Rows(A) |-> RDot(A[i], x)])
Outer(x, y) == Ev([i \in DOMAIN x |-> [j \in DOMAIN y |-> RMul(x[i], y[j])]])
(* A B A' *)
Sandwich(A, B) == MM(MM(A, B), MT(A))
Trace1(A) == RSum([i \in 1..Rows(A) |-> A[i][i]])

SubV(x, I) == Ev([k \in 1..Len(I) |-> x[I[k]]])
SubM(A, I, J) == Ev([k \in 1..Len(I) |-> [l \in 1..Len(J) |-> A[I[k]][J[l]]]])
Range(a, n) == [k \in 1..n |-> a + k - 1]           \* n indices from a
VCat(x, y) == x \o y
VStack(A, B) == A \o B
HStack(A, B) == Ev([i \in 1..Rows(A) |-> A[i] \o B[i]])
Block(A, B, C, D) == VStack(HStack(A, B), HStack(C, D))
ToMat(x, n) == Ev([i \in 1..n |-> [j \in 1..(Len(x) \div n) |-> x[(i - 1) * (Len(x) \div n) + j]]])
Col(x) == [i \in 1..Len(x) |-> <<x[i]>>]
Vec(A) == Ev([i \in 1..Rows(A) |-> A[i][1]])       \* of a one column matrix

(* Gauss-Jordan elimination of the positive definite A next to B:           *)
(* [x |-> A^-1 B, ld |-> log det A]                                         *)
RECURSIVE Eliminate(_, _, _, _)
Eliminate(A, B, k, ld) ==
    IF k > Rows(A) THEN [x |-> B, ld |-> ld]
    ELSE LET p == A[k][k]
             ra == [j \in 1..Cols(A) |-> RDiv(A[k][j], p)]
             rb == [j \in 1..Cols(B) |-> RDiv(B[k][j], p)]
             ea == Ev(ra)
             eb == Ev(rb)
             A2 == Ev([i \in 1..Rows(A) |-> IF i = k THEN ea
                     ELSE [j \in 1..Cols(A) |-> IF j < k THEN 0 ELSE RSub(A[i][j], RMul(A[i][k], ea[j]))]])
             B2 == Ev([i \in 1..Rows(A) |-> IF i = k THEN eb
                     ELSE [j \in 1..Cols(B) |-> RSub(B[i][j], RMul(A[i][k], eb[j]))]])
         IN Eliminate(A2, B2, k + 1, RAdd(ld, RLog(p)))
Solve(A, B) == Eliminate(A, B, 1, 0)
MInv(A) == Solve(A, Eye(Rows(A))).x
LogDet(A) == Solve(A, Zeros(Rows(A), 1)).ld

MClose(A, B, rtol, atol) ==
    /\ Rows(A) = Rows(B)
    /\ \A i \in 1..Rows(A) : Len(A[i]) = Len(B[i]) /\ \A j \in 1..Len(A[i]) : RClose(A[i][j], B[i][j], rtol, atol)
VClose(x, y, rtol, atol) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : RClose(x[i], y[i], rtol, atol)
=============================================================================
