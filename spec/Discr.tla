-------------------------------- MODULE Discr --------------------------------
(* Discretisation and linearisation (SystemDiscretizer, Sensitivity*, SystemLinearizer, DiscreteSystemLinearizer,
   LTISystem, DiscreteLTISystem).
   Plant: p' = v + c t,  v' = k p + a p v + w t p + b u; its parameters are <<k, a, w, c, b>>.
   Step types: 0 EULERCT 1 RK4CT 2 EULER_SYM 3 EULER 4 RK4 5 RK_SYM.  A discretizer owns a snapshot of the plant
   (par), a type (ty), K sub-steps of h = h2/2 seconds; interval n starts at time n K h.  States are integers times SC,
   time in ticks of 1/4.
   The sensitivity of a step is its derivative; it is obtained by stepping the dual state <<p, v, dp, dv>>.        *)
EXTENDS Integers, Sequences

SC == 36864
NoD == [on |-> FALSE, par |-> <<0, 0, 0, 0, 0>>, ty |-> 0, K |-> 1, h2 |-> 2]
S0 == [par |-> <<0, 0, 0, 0, 1>>, d |-> <<NoD, NoD>>]
OK(r) == [r |-> r, x |-> 0]
Abs(v) == IF v < 0 THEN -v ELSE v

\* right-hand side of the dual system; t4 = time in quarters; u, du integers
PDot(P, Z, t4) == <<Z[2] + (P[4] * t4 * SC) \div 4, Z[4]>>
VDot(P, Z, t4, u, du) ==
    <<P[1] * Z[1] + (IF P[2] = 0 THEN 0 ELSE P[2] * ((Z[1] * (Z[2] \div 288)) \div 128)) + (P[3] * t4 * Z[1]) \div 4 + P[5] * u * SC,
      P[1] * Z[3] + (IF P[2] = 0 THEN 0 ELSE P[2] * ((Z[3] * (Z[2] \div 288)) \div 128 + (Z[1] * (Z[4] \div 288)) \div 128)) + (P[3] * t4 * Z[3]) \div 4 + P[5] * du * SC>>
Rhs(P, Z, t4, u, du) == LET p == PDot(P, Z, t4) v == VDot(P, Z, t4, u, du) IN <<p[1], v[1], p[2], v[2]>>
Axpy(Z, num, K, den) == [i \in 1..4 |-> Z[i] + (num * K[i]) \div den]
\* one sub-step of length h2/2 from time t4: new dual state and the points at which the dynamics are evaluated
EulerStep(P, Z, t4, h2, u, du) == [z |-> Axpy(Z, h2, Rhs(P, Z, t4, u, du), 2), sub |-> << <<Z[1], Z[2]>> >>]
RK4Step(P, Z, t4, h2, u, du) ==
    LET k1 == Rhs(P, Z, t4, u, du)
        y2 == Axpy(Z, h2, k1, 4)
        k2 == Rhs(P, y2, t4 + h2, u, du)
        y3 == Axpy(Z, h2, k2, 4)
        k3 == Rhs(P, y3, t4 + h2, u, du)
        y4 == Axpy(Z, h2, k3, 2)
        k4 == Rhs(P, y4, t4 + 2 * h2, u, du)
    IN [z |-> [i \in 1..4 |-> Z[i] + (h2 * (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i])) \div 12],
        sub |-> << <<Z[1], Z[2]>>, <<y2[1], y2[2]>>, <<y3[1], y3[2]>>, <<y4[1], y4[2]>> >>]
\* symplectic Euler: position first, then velocity at the new position (the plant is then autonomous: c = w = 0)
SymStep(P, Z, h2, u, du) ==
    LET pd == PDot(P, Z, 0)
        Y == <<Z[1] + (h2 * pd[1]) \div 2, Z[2], Z[3] + (h2 * pd[2]) \div 2, Z[4]>>
        vd == VDot(P, Y, 0, u, du)
    IN [z |-> <<Y[1], Y[2] + (h2 * vd[1]) \div 2, Y[3], Y[4] + (h2 * vd[2]) \div 2>>, sub |-> << <<Z[1], Z[2]>> >>]
\* higher-order symplectic method on the drift system (k = a = 0): exact
SymRkStep(P, Z, h2, u, du) ==
    [z |-> <<Z[1] + (h2 * Z[2]) \div 2 + (h2 * h2 * P[5] * u * SC) \div 8, Z[2] + (h2 * P[5] * u * SC) \div 2,
             Z[3] + (h2 * Z[4]) \div 2 + (h2 * h2 * P[5] * du * SC) \div 8, Z[4] + (h2 * P[5] * du * SC) \div 2>>, sub |-> <<>>]
StepOf(ty, P, Z, t4, h2, u, du) ==
    CASE ty \in {0, 3} -> EulerStep(P, Z, t4, h2, u, du)
      [] ty \in {1, 4} -> RK4Step(P, Z, t4, h2, u, du)
      [] ty = 2 -> SymStep(P, Z, h2, u, du)
      [] ty = 5 -> SymRkStep(P, Z, h2, u, du)
RECURSIVE Go(_, _, _, _, _, _)
Go(d, Z, i, n, u, du) ==
    IF i = d.K THEN [z |-> Z, sub |-> <<>>]
    ELSE LET s == StepOf(d.ty, d.par, Z, (n * d.K + i) * 2 * d.h2, d.h2, u, du)
             r == Go(d, s.z, i + 1, n, u, du)
         IN [z |-> r.z, sub |-> s.sub \o r.sub]
X0(p, v, dp, dv) == <<SC * p, SC * v, SC * dp, SC * dv>>
Flow(d, n, p, v, u) == Go(d, X0(p, v, 0, 0), 0, n, u, 0)
Tan(d, n, p, v, u, dp, dv, du) == LET z == Go(d, X0(p, v, dp, dv), 0, n, u, du).z IN <<z[3], z[4]>>
\* A row by row, then B
Sens(d, n, p, v, u) == LET e1 == Tan(d, n, p, v, u, 1, 0, 0) e2 == Tan(d, n, p, v, u, 0, 1, 0) eb == Tan(d, n, p, v, u, 0, 0, 1)
                       IN <<e1[1], e2[1], e1[2], e2[2], eb[1], eb[2]>>
\* continuous-time Jacobians times 4 (t4 quarters)
Ac4(P, t4, p, v) == <<0, 4, 4 * P[1] + 4 * P[2] * v + P[3] * t4, 4 * P[2] * p>>
Bc(P) == <<0, P[5]>>

RECURSIVE CatSub(_, _)
CatSub(q, u) == IF q = <<>> THEN <<>> ELSE <<q[1][1], q[1][2], u>> \o CatSub(Tail(q), u)

Mul2(A, B) == <<A[1] * B[1] + A[2] * B[3], A[1] * B[2] + A[2] * B[4], A[3] * B[1] + A[4] * B[3], A[3] * B[2] + A[4] * B[4]>>
MV2(A, b) == <<A[1] * b[1] + A[2] * b[2], A[3] * b[1] + A[4] * b[2]>>
Full(cols) == \E i, j \in 1..Len(cols) : cols[i][1] * cols[j][2] # cols[i][2] * cols[j][1]
T2(A) == <<A[1], A[3], A[2], A[4]>>
Bit(q) == IF q THEN 1 ELSE 0

Exp(s, e) ==
    LET a == e.a IN
    CASE e.op = "step" -> LET d == s.d[a[1]] f == Flow(d, a[2], a[3], a[4], a[5]) IN
            OK(<<f.z[1], f.z[2], Len(f.sub)>> \o CatSub(f.sub, a[5]))
      [] e.op = "sens" -> LET d == s.d[a[1]] IN OK(Sens(d, a[2], a[3], a[4], a[5]))
      \* sensitivity with the Jacobians frozen at the start of the interval: Euler steps with constant A, B
      [] e.op = "fe" -> LET d == [on |-> TRUE, par |-> s.par, ty |-> 0, K |-> 1, h2 |-> a[1]] IN OK(Sens(d, a[2], a[3], a[4], a[5]))
      [] e.op = "se" -> LET d == [on |-> TRUE, par |-> s.par, ty |-> 2, K |-> 1, h2 |-> a[1]] IN OK(Sens(d, a[2], a[3], a[4], a[5]))
      \* linear time-invariant pair: a = A (4), B (2), C (4), x (2), u
      [] e.op \in {"lti", "dlti"} ->
            LET A == SubSeq(a, 1, 4) b == <<a[5], a[6]>> C == SubSeq(a, 7, 10) x == <<a[11], a[12]>> u == a[13]
                Ab == MV2(A, b) f == MV2(A, x) y == MV2(C, x) CA == Mul2(C, A)
            IN OK(<<b[1], Ab[1], b[2], Ab[2], Bit(Full(<<b, Ab>>)),
                    Bit(Full(<< <<C[1], C[2]>>, <<C[3], C[4]>>, <<CA[1], CA[2]>>, <<CA[3], CA[4]>> >>)),
                    f[1] + b[1] * u, f[2] + b[2] * u, y[1] + 2 * u, y[2] - u>> \o A \o b \o
                  <<f[1] + 3 * b[1], f[2] + 3 * b[2]>>)      \* clone's closed loop with the constant controller u = 3
      [] OTHER -> OK(<<>>)

Near(r, q, tol) == \A i \in 1..Len(q) : Abs(r[i] - q[i]) <= tol
\* recorded values at scale 1000
Num(q) == [i \in 1..Len(q) |-> q[i]]
\* conditions that pin down the implicit and exponential discretisations from the recorded matrices (times 1000)
Implicit(s, e) ==   \* a: kind (1 backward Euler, 3 Tustin), h2, n, p, v, u, p+, v+ ;  r: Ad (4), Bd (2)
    LET a == e.a h2 == a[2]
        Ae == Ac4(s.par, 2 * h2 * (a[3] + 1), IF a[1] = 1 THEN a[4] ELSE a[7], IF a[1] = 1 THEN a[5] ELSE a[8])
        As == Ac4(s.par, 2 * h2 * a[3], a[4], a[5])
        q == IF a[1] = 1 THEN 8 ELSE 16                      \* h A = h2 Ac4 / 8,  h A / 2 = h2 Ac4 / 16
        I2 == <<q, 0, 0, q>>
        L == [i \in 1..4 |-> I2[i] - h2 * Ae[i]]             \* q (I - ...)
        R == IF a[1] = 1 THEN I2 ELSE [i \in 1..4 |-> I2[i] + h2 * As[i]]
        Ad == SubSeq(e.r, 1, 4) Bd == SubSeq(e.r, 5, 6)
        tol == 1 + Abs(L[1]) + Abs(L[2]) + Abs(L[3]) + Abs(L[4])
        LA == Mul2(L, Ad) LB == MV2(L, Bd)
    IN /\ Len(e.r) = 6
       /\ \A i \in 1..4 : Abs(LA[i] - 1000 * R[i]) <= tol
       /\ \A i \in 1..2 : Abs(LB[i] - 500 * q * h2 * Bc(s.par)[i]) <= tol
Expon(s, e) ==      \* a: h2, n, p, v, u; r: Ad(h), Bd(h), Ad(2h), Bd(2h) times 1000 (the plant is frozen at its start point)
    LET a == e.a h2 == a[1] P == s.par r == e.r
        A1 == SubSeq(r, 1, 4) B1 == SubSeq(r, 5, 6) A2 == SubSeq(r, 7, 10) B2 == SubSeq(r, 11, 12)
        A4 == Ac4(P, 0, a[3], a[4])
        tol == 3 + (Abs(A1[1]) + Abs(A1[2]) + Abs(A1[3]) + Abs(A1[4])) \div 400
        AA == Mul2(A1, A1) AB == MV2(A1, B1)
        G == <<A4[1] * A1[1] + A4[2] * A1[3], A4[1] * A1[2] + A4[2] * A1[4], A4[3] * A1[1] + A4[4] * A1[3], A4[3] * A1[2] + A4[4] * A1[4]>>
    IN /\ Len(r) = 12
       /\ A4[1] = 0 /\ A4[3] = 0 /\ A4[4] = 0 =>            \* double integrator: closed form
            /\ A1 = <<1000, 500 * h2, 0, 1000>> /\ B1 = <<125 * h2 * h2 * P[5], 500 * h2 * P[5]>>
       /\ \A i \in 1..4 : Abs(AA[i] \div 1000 - A2[i]) <= tol                       \* exp(2Ah) = exp(Ah)^2
       /\ \A i \in 1..2 : Abs((AB[i] \div 1000) + B1[i] - B2[i]) <= tol              \* B(2h) = exp(Ah) B(h) + B(h)
       /\ LET MB == MV2(A4, B1) IN \A i \in 1..2 :                                   \* A B(h) = (exp(Ah) - I) B
            Abs(MB[i] - 4 * ((A1[2 * i] - (IF i = 2 THEN 1000 ELSE 0)) * P[5])) <= 4 * tol + Abs(A4[3]) + Abs(A4[4])
\* numerical linearisers: continuous (times 1000), discrete through a discretizer (times 1000)
LinExp(s, e) == LET a == e.a A == Ac4(s.par, a[2], a[3], a[4]) IN [i \in 1..6 |-> IF i <= 4 THEN 250 * A[i] ELSE 1000 * Bc(s.par)[i - 4]]
DLinExp(s, e) == LET a == e.a d == s.d[a[1]] q == Sens(d, a[2], a[3], a[4], a[5]) IN [i \in 1..6 |-> (q[i] * 125) \div 4608]

Match(s, e) ==
    CASE e.op = "imp" -> e.x = 0 /\ Implicit(s, e)
      [] e.op = "exp" -> e.x = 0 /\ Expon(s, e)
      [] e.op = "lin" -> e.x = 0 /\ Len(e.r) = 6 /\ Near(e.r, LinExp(s, e), 1)
      [] e.op = "dlin" -> e.x = 0 /\ Len(e.r) = 6 /\ Near(e.r, DLinExp(s, e), 2)
      [] OTHER -> e.x = Exp(s, e).x /\ e.r = Exp(s, e).r

Nxt(s, e) ==
    LET a == e.a IN
    CASE e.op = "par" -> [s EXCEPT !.par = a]
      [] e.op = "new" -> [s EXCEPT !.d[1] = [on |-> TRUE, par |-> s.par, ty |-> a[1], K |-> a[2], h2 |-> a[3]]]
      [] e.op = "cl" -> [s EXCEPT !.d[2] = s.d[1]]
      [] e.op = "sett" -> [s EXCEPT !.d[a[1]].ty = a[2]]
      [] e.op = "setp" -> [s EXCEPT !.d[a[1]].K = a[2], !.d[a[1]].h2 = a[3]]
      [] e.op = "chg" -> [s EXCEPT !.d[a[1]].par = s.par]
      [] OTHER -> s
=============================================================================
