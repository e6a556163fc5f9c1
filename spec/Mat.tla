-------------------------------- MODULE Mat --------------------------------
(* Exact dyadic matrices: rows of integers in units of 1/U.  Products divide by U; the data of the models is chosen so
   that the division is exact.                                                                                        *)
EXTENDS Integers, Sequences, TLC
U == 64
\* One({ F(v) : v \in {E} }): F(E) with E evaluated once (TLC does not cache LET values inside function bodies)
One(S) == CHOOSE w \in S : TRUE
RECURSIVE Dot(_, _, _)
Dot(a, b, k) == IF k = 0 THEN 0 ELSE a[k] * b[k] + Dot(a, b, k - 1)
Col(B, j) == TLCEval([k \in 1..Len(B) |-> B[k][j]])
T(A) == TLCEval([j \in 1..Len(A[1]) |-> [i \in 1..Len(A) |-> A[i][j]]])
MM(A, B) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(B[1]) |-> Dot(A[i], Col(B, j), Len(B)) \div U]])
MV(A, v) == TLCEval([i \in 1..Len(A) |-> Dot(A[i], v, Len(v)) \div U])
MA(A, B) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(A[1]) |-> A[i][j] + B[i][j]]])
MS(A, B) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(A[1]) |-> A[i][j] - B[i][j]]])
VA(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] + b[i]])
VS(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] - b[i]])
\* q' M w  in units 1/U
Form(v, M, w) == Dot(v, MV(M, w), Len(v)) \div U
\* row-major matrix in a sequence, starting after position o
At(a, o, r, c) == TLCEval([i \in 1..r |-> [j \in 1..c |-> a[o + (i - 1) * c + j]]])
Seq1(a, o, n) == TLCEval([i \in 1..n |-> a[o + i]])
RECURSIVE Flat(_)
Flat(A) == IF A = <<>> THEN <<>> ELSE A[1] \o Flat(Tail(A))
\* solve a symmetric 2x2 system H X = Y (exactly representable results)
Det2(H) == H[1][1] * H[2][2] - H[1][2] * H[2][1]
Adj2(H) == << <<H[2][2], -H[1][2]>>, <<-H[2][1], H[1][1]>> >>
SolveM(H, Y) == LET d == Det2(H) C == Adj2(H) IN TLCEval([i \in 1..2 |-> [j \in 1..Len(Y[1]) |-> (Dot(C[i], Col(Y, j), 2) * U) \div d]])
SolveV(H, y) == LET d == Det2(H) C == Adj2(H) IN TLCEval([i \in 1..2 |-> (Dot(C[i], y, 2) * U) \div d])
Id(n) == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN U ELSE 0]])
Zero(r, c) == TLCEval([i \in 1..r |-> [j \in 1..c |-> 0]])
ZeroV(n) == TLCEval([i \in 1..n |-> 0])
=============================================================================
