-------------------------------- MODULE Lqr --------------------------------
(* LQR design: infinite horizon, discrete (DARE) and continuous time (CARE, LQR), the dynamic Riccati equation and the
   finite-horizon discrete-time LQR (FHDTLQR).  Numbers in units of 1/64; observations in units of 1/1024, within Near.
   Every operation carries the claimed solution as a certificate, which the specification verifies exactly before it is
   compared with what the code computed; the defining conditions have exactly one solution.
     dare  <<warm, maxit, Q, R, A, B, P, K, W>>  n = m = 2; W: starting value of P when warm; u = K x
     nodare <<Q, R, A, B>>: a mode that cannot be stabilised, hence refused
     care  <<iterative, diag, class, Q, R, A, B, P, K>>  u = -K x
     dre   <<robust, Q, R, A, B, P, K>>  n = 2, m = 3: one step of the recursion
     fhd   <<form, checks, N, bad, dt, stages (A, B, Q, R, K), QT>>  n = 2, m = 3, dt in halves; Q, R: weights per step
           (running cost times dt); form 0: matrices given, 1: from the derivatives of a continuous-time system (A = I + dt Ac);
           bad = 1, 2, 3: control trajectory / A / B of the wrong length                                                 *)
EXTENDS Mat
Abs(v) == IF v < 0 THEN -v ELSE v
Neg(A) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(A[1]) |-> -A[i][j]]])
IsSym(A) == A = T(A)
Near(o, h) == Abs(o - 16 * h) <= 2 + Abs(16 * h) \div 1000
NearM(r, o, M) == \A k \in 1..Len(M) : Near(r[o + k], M[k])
Tr(A) == A[1][1] + A[2][2]
Dt(A) == Det2(A) \div U
\* Schur stability of a 2x2 matrix (Jury) and Hurwitz stability
Schur(F) == Abs(Dt(F)) < U /\ Abs(Tr(F)) < U + Dt(F)
Hurwitz(F) == Tr(F) < 0 /\ Det2(F) > 0
PD2(A) == A[1][1] > 0 /\ Det2(A) > 0
\* positive definiteness of an integer 3x3 matrix (given in units)
I3(A) == TLCEval([i \in 1..3 |-> [j \in 1..3 |-> A[i][j] \div U]])
Det3(A) == A[1][1] * (A[2][2] * A[3][3] - A[2][3] * A[3][2]) - A[1][2] * (A[2][1] * A[3][3] - A[2][3] * A[3][1]) + A[1][3] * (A[2][1] * A[3][2] - A[2][2] * A[3][1])
PD3(A) == A[1][1] > 0 /\ A[1][1] * A[2][2] - A[1][2] * A[2][1] > 0 /\ Det3(A) > 0
DareCert(Q, R, A, B, P, K) ==
    LET F == MA(A, MM(B, K)) IN
    /\ IsSym(Q) /\ IsSym(R) /\ IsSym(P) /\ PD2(P) /\ PD2(R)
    /\ P = MA(Q, MM(MM(T(A), P), F))
    /\ MM(MA(R, MM(MM(T(B), P), B)), K) = Neg(MM(MM(T(B), P), A))
    /\ Schur(F)
CareCert(Q, R, A, B, P, K) ==
    /\ IsSym(Q) /\ IsSym(R) /\ IsSym(P) /\ PD2(P) /\ PD2(R)
    /\ MA(MA(MM(T(A), P), MM(P, A)), Q) = MM(MM(P, B), K)
    /\ MM(R, K) = MM(T(B), P)
    /\ Hurwitz(MS(A, MM(B, K)))
DreStep(Q, R, A, B, P, K) ==
    LET H == MA(R, MM(MM(T(B), P), B)) G == MM(MM(T(B), P), A) IN
    [ok |-> IsSym(R) /\ IsSym(P) /\ IsSym(Q) /\ PD3(I3(H)) /\ MM(H, K) = Neg(G), P |-> MA(MA(Q, MM(MM(T(A), P), A)), MM(T(K), G))]
FS == 29
FStage(a, o) == [A |-> At(a, o, 2, 2), B |-> At(a, o + 4, 2, 3), Q |-> At(a, o + 10, 2, 2), R |-> At(a, o + 14, 3, 3), K |-> At(a, o + 23, 3, 2)]
RECURSIVE FhdOk(_, _, _, _)
\* stages k, k-1, ..., 1 with cost-to-go P behind stage k
FhdOk(a, k, P, acc) == IF k = 0 THEN acc ELSE
    One({ One({ FhdOk(a, k - 1, d.P, acc /\ d.ok) : d \in {DreStep(z.Q, z.R, z.A, z.B, P, z.K)} }) : z \in {FStage(a, 5 + FS * (k - 1))} })
NonNeg(A) == \A i \in 1..Len(A) : \A j \in 1..Len(A[1]) : A[i][j] >= 0
\* the numerical checks: weights without negative entries, positive diagonal of R, terminal weight without negative eigenvalues
FhdChecks(a) ==
    LET N == a[3] QT == At(a, 5 + FS * N, 2, 2) IN
    /\ Tr(QT) >= 0 /\ Det2(QT) >= 0
    /\ \A k \in 1..N : LET z == FStage(a, 5 + FS * (k - 1)) IN NonNeg(z.Q) /\ NonNeg(z.R) /\ \A i \in 1..3 : z.R[i][i] > 0
FhdK(a) == [i \in 1..(6 * a[3]) |-> a[5 + FS * ((i - 1) \div 6) + 23 + ((i - 1) % 6) + 1]]
S0 == 0
Nxt(st, e) == st
Refused(e) == \/ e.op = "dare" /\ e.a[2] = 0
              \/ e.op = "nodare"
              \/ e.op = "fhd" /\ (e.a[4] # 0 \/ (e.a[2] = 1 /\ ~FhdChecks(e.a)))
M2(a, k) == At(a, k, 2, 2)
Cert(e) == LET a == e.a IN
    CASE e.op = "dare" -> DareCert(M2(a, 2), M2(a, 6), M2(a, 10), M2(a, 14), M2(a, 18), M2(a, 22))
      [] e.op = "nodare" -> LET Q == M2(a, 0) A == M2(a, 8) B == M2(a, 12) IN A[1][2] = 0 /\ A[1][1] >= U /\ B[1] = <<0, 0>> /\ PD2(Q)
      [] e.op = "care" -> CareCert(M2(a, 3), M2(a, 7), M2(a, 11), M2(a, 15), M2(a, 19), M2(a, 23))
      [] e.op = "dre" -> DreStep(M2(a, 1), At(a, 5, 3, 3), M2(a, 14), At(a, 18, 2, 3), M2(a, 24), At(a, 28, 3, 2)).ok
      [] e.op = "fhd" -> FhdOk(a, a[3], At(a, 5 + FS * a[3], 2, 2), TRUE)
Want(e) == LET a == e.a IN
    CASE e.op = "dare" -> Seq1(a, 18, 8)
      [] e.op = "care" -> IF a[3] = 0 THEN Seq1(a, 23, 4) ELSE Seq1(a, 19, 4)
      [] e.op = "dre" -> Flat(DreStep(M2(a, 1), At(a, 5, 3, 3), M2(a, 14), At(a, 18, 2, 3), M2(a, 24), At(a, 28, 3, 2)).P) \o Seq1(a, 28, 6)
      [] e.op = "fhd" -> FhdK(a)
      [] OTHER -> <<>>
Exp(st, e) == [certificate |-> Cert(e), refused |-> Refused(e), times16 |-> Want(e)]
Match(st, e) ==
    /\ Cert(e)
    /\ IF Refused(e) THEN e.x = 1 ELSE e.x = 0 /\ Len(e.r) = Len(Want(e)) /\ NearM(e.r, 0, Want(e))
=============================================================================
