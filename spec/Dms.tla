-------------------------------- MODULE Dms --------------------------------
(* Direct multiple shooting: the nonlinear program a DmsProblem presents to the solver (ct_optcon/dms, ct_optcon/nlp).
   Variables w = (s_0, q_0, ..., s_N, q_N), 3 states (z, p, v) and 2 controls per node; numbers are residues (module Res).
   Plant:    z' = p - u2,   p' = v + c t,   v' = k p + a p v + w t p + b u1 + g z u2
   Running cost   q1 z^2 + q2 p^2 + q3 v u1 + q4 u1^2 + q5 u2^2 + q6 t p + q7 z u2;  terminal  f1 z^2 + f2 p v + f3 t v
   Constraints: initial state, continuity of every shot, then node by node the input box, the state box and the general
   constraint (rows  p u1 + t,  z - u2^2), then the terminal state box and the terminal general constraint (z^2 + v + t, p u1).
   Derivatives are taken in a direction d: every quantity is evaluated on dual numbers.
   One problem: N shots of h/2 seconds, steps of dt/2 seconds, spl 0 hold / 1 linear, ty 0 Euler / 1 RK4, full 0/1 cost
   evaluation along the trajectory, mask (1 input box, 2 state box, 4 general), th threads (must not matter).          *)
EXTENDS Res, TLC
NoP == [on |-> FALSE]
S0 == [p |-> NoP, w |-> <<>>, sol |-> <<>>, guess |-> <<>>]
OK(r) == [r |-> r, x |-> 0]
Fail == [r |-> <<>>, x |-> 1]

\* a : N h dt spl ty full mask th  k a w c b g  q1..q7 f1..f3  x0(3)
Prob(a) == [on |-> TRUE, N |-> a[1], h |-> a[2], dt |-> a[3], spl |-> a[4], ty |-> a[5], full |-> a[6], mask |-> a[7],
            pl |-> [i \in 1..6 |-> R(a[8 + i])], q |-> [i \in 1..7 |-> R(a[14 + i])], f |-> [i \in 1..3 |-> R(a[21 + i])],
            x0 |-> <<R(a[25]), R(a[26]), R(a[27])>>]
\* dual numbers
DM(a, b) == <<Mul(a[1], b[1]), Add(Mul(a[1], b[2]), Mul(a[2], b[1]))>>
DA(a, b) == <<Add(a[1], b[1]), Add(a[2], b[2])>>
DS(k, a) == <<Mul(k, a[1]), Mul(k, a[2])>>
RECURSIVE DSum(_)
DSum(q) == IF q = <<>> THEN <<0, 0>> ELSE DA(q[1], DSum(Tail(q)))
K(c) == <<c, 0>>
\* node i of (w, d): duals <<z, p, v, u1, u2>>
Node(w, d, i) == TLCEval([j \in 1..5 |-> <<R(w[5 * i + j]), R(d[5 * i + j])>>])
TimeOf(p, i) == Mul(R(i * p.h), Half)

RunCost(q, x, t) == DSum(<<DS(q[1], DM(x[1], x[1])), DS(q[2], DM(x[2], x[2])), DS(q[3], DM(x[3], x[4])), DS(q[4], DM(x[4], x[4])),
                           DS(q[5], DM(x[5], x[5])), DS(Mul(q[6], t), x[2]), DS(q[7], DM(x[1], x[5]))>>)
EndCost(f, x, t) == DSum(<<DS(f[1], DM(x[1], x[1])), DS(f[2], DM(x[2], x[3])), DS(Mul(f[3], t), x[3])>>)
\* right-hand side of the plant, extended by the running cost; Z = <<z, p, v, cost>>, U = <<u1, u2>> (duals)
Rhs(p, Z, U, t) == TLCEval(<<DA(Z[2], DS(R(-1), U[2])), DA(Z[3], K(Mul(p.pl[4], t))),
                     DSum(<<DS(p.pl[1], Z[2]), DS(p.pl[2], DM(Z[2], Z[3])), DS(Mul(p.pl[3], t), Z[2]), DS(p.pl[5], U[1]), DS(p.pl[6], DM(Z[1], U[2]))>>),
                     RunCost(p.q, <<Z[1], Z[2], Z[3], U[1], U[2]>>, t)>>)
\* control at fraction m/n of the shot
Ctl(p, x, y, m, n) == IF p.spl = 0 THEN <<x[4], x[5]>>
                      ELSE LET l == Div(m, n) IN TLCEval([j \in 1..2 |-> DA(DS(Sub(1, l), x[3 + j]), DS(l, y[3 + j]))])
Axpy(Z, c, D) == TLCEval([i \in 1..4 |-> DA(Z[i], DS(c, D[i]))])
\* step i of n from the start of shot j (sub-steps in quarters of dt/2 ... times are residues)
Step(p, x, y, Z, j, i, n) ==
    LET h == Mul(p.dt, Half)
        t0 == Add(TimeOf(p, j), Mul(i, h))
        k1 == Rhs(p, Z, Ctl(p, x, y, 2 * i, 2 * n), t0)
    IN IF p.ty = 0 THEN Axpy(Z, h, k1)
       ELSE LET hh == Mul(h, Half)
                um == Ctl(p, x, y, 2 * i + 1, 2 * n)
                k2 == Rhs(p, Axpy(Z, hh, k1), um, Add(t0, hh))
                k3 == Rhs(p, Axpy(Z, hh, k2), um, Add(t0, hh))
                k4 == Rhs(p, Axpy(Z, h, k3), Ctl(p, x, y, 2 * i + 2, 2 * n), Add(t0, h))
            IN TLCEval([m \in 1..4 |-> DA(Z[m], DS(Mul(h, Sixth), DSum(<<k1[m], DS(2, k2[m]), DS(2, k3[m]), k4[m]>>)))])
RECURSIVE Steps(_, _, _, _, _, _, _)
Steps(p, x, y, Z, j, i, n) == IF i = n THEN Z ELSE Steps(p, x, y, Step(p, x, y, Z, j, i, n), j, i + 1, n)
\* end of shot j: <<z, p, v, integrated cost>>
Shot(p, w, d, j) == LET x == Node(w, d, j) y == Node(w, d, j + 1) IN
                    Steps(p, x, y, <<x[1], x[2], x[3], K(0)>>, j, 0, p.h \div p.dt)

\* weight of node i in the simple cost evaluation
Phi(p, i) == IF p.spl = 0 THEN (IF i = p.N THEN 0 ELSE TimeOf(p, 1))
             ELSE IF i \in {0, p.N} THEN Mul(Half, TimeOf(p, 1)) ELSE TimeOf(p, 1)
Cost(p, w, d) ==
    DA(EndCost(p.f, Node(w, d, p.N), TimeOf(p, p.N)),
       IF p.full = 1 THEN DSum([j \in 1..p.N |-> Shot(p, w, d, j - 1)[4]])
       ELSE DSum([i \in 1..(p.N + 1) |-> DS(Phi(p, i - 1), RunCost(p.q, Node(w, d, i - 1), TimeOf(p, i - 1)))]))

Bit(m, b) == (m \div b) % 2 = 1
NegX(x) == [j \in 1..3 |-> DS(R(-1), x[j])]
General(x, t) == <<DA(DM(x[2], x[4]), K(t)), DA(x[1], DS(R(-1), DM(x[5], x[5])))>>
GenEnd(x, t) == <<DSum(<<DM(x[1], x[1]), x[3], K(t)>>), DM(x[2], x[4])>>
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Cat(Tail(q))
AtNode(p, x, t) == (IF Bit(p.mask, 1) THEN <<x[4], x[5]>> ELSE <<>>) \o (IF Bit(p.mask, 2) THEN <<x[1], x[2], x[3]>> ELSE <<>>)
                   \o (IF Bit(p.mask, 4) THEN General(x, t) ELSE <<>>)
AtEnd(p, x, t) == (IF Bit(p.mask, 2) THEN <<x[1], x[2], x[3]>> ELSE <<>>) \o (IF Bit(p.mask, 4) THEN GenEnd(x, t) ELSE <<>>)
Con(p, w, d) ==
    LET x0 == Node(w, d, 0) IN
    [j \in 1..3 |-> DA(x0[j], K(R(-p.x0[j])))]
    \o Cat([i \in 1..p.N |-> LET e == Shot(p, w, d, i - 1) y == Node(w, d, i) IN [j \in 1..3 |-> DA(y[j], DS(R(-1), e[j]))]])
    \o Cat([i \in 1..(p.N + 1) |-> AtNode(p, Node(w, d, i - 1), TimeOf(p, i - 1))])
    \o AtEnd(p, Node(w, d, p.N), TimeOf(p, p.N))
\* bounds (plain integers): zero for the equalities, then those of the boxes and general constraints
Lo(p) == [i \in 1..(3 + 3 * p.N) |-> 0]
NodeB(p, lo) == (IF Bit(p.mask, 1) THEN (IF lo THEN <<-3, -4>> ELSE <<5, 6>>) ELSE <<>>) \o (IF Bit(p.mask, 2) THEN (IF lo THEN <<-7, -8, -9>> ELSE <<10, 11, 12>>) ELSE <<>>)
                \o (IF Bit(p.mask, 4) THEN (IF lo THEN <<-13, -14>> ELSE <<15, 16>>) ELSE <<>>)
EndB(p, lo) == (IF Bit(p.mask, 2) THEN (IF lo THEN <<-7, -8, -9>> ELSE <<10, 11, 12>>) ELSE <<>>) \o (IF Bit(p.mask, 4) THEN (IF lo THEN <<-17, -18>> ELSE <<19, 20>>) ELSE <<>>)
Bounds(p, lo) == Lo(p) \o Cat([i \in 1..(p.N + 1) |-> NodeB(p, lo)]) \o EndB(p, lo)
Zero(p) == [i \in 1..(5 * (p.N + 1)) |-> 0]
Vals(q) == [i \in 1..Len(q) |-> q[i][1]]
Ders(q) == [i \in 1..Len(q) |-> q[i][2]]
Times(N, T) == [i \in 1..(N + 1) |-> Div((i - 1) * T, 2 * N)]

\* splines: a = type, N, h, shot, m, n (time at fraction m/n of the shot), nodes (2 each)
Spline(a) ==
    LET q(i, j) == R(a[6 + 2 * i + j]) l == Div(a[5], a[6]) s == a[4] dur == Mul(a[3], Half) IN
    IF a[1] = 0 THEN <<q(s, 1), q(s, 2), 0, 0, 0, 0, 1, 0, 0, 1, 0, 0, 0, 0>>
    ELSE [j \in 1..2 |-> Add(Mul(Sub(1, l), q(s, j)), Mul(l, q(s + 1, j)))]
         \o [j \in 1..2 |-> Div(Sub(q(s + 1, j), q(s, j)), dur)]
         \o [j \in 1..2 |-> Div(Mul(l, Sub(q(s, j), q(s + 1, j))), dur)]
         \o <<Sub(1, l), 0, 0, Sub(1, l), l, 0, 0, l>>
\* time grids: a = N, T (halves), kind, arguments
Grid(a) ==
    LET N == IF a[3] = 1 THEN a[4] ELSE a[1]
        T == IF a[3] = 2 THEN a[4] ELSE a[2]
        RECURSIVE Acc(_)
        Acc(i) == IF i = 0 THEN 0 ELSE Acc(i - 1) + a[3 + i]
        ts == IF a[3] = 3 THEN [i \in 1..(N + 1) |-> Mul(R(Acc(i - 1)), Half)] ELSE Times(N, T)
    IN ts \o [i \in 1..N |-> ts[i]] \o [i \in 1..N |-> ts[i + 1]] \o [i \in 1..N |-> Sub(ts[i + 1], ts[i])] \o <<Mul(R(T), Half), ts[N + 1]>>
\* interpolated initial guess: a = N, x0 (3), xf (3), u0 (2)
Guess(a) == Cat([i \in 1..(a[1] + 1) |-> [j \in 1..3 |-> Add(R(a[1 + j]), Mul(Div(i - 1, a[1]), R(a[4 + j] - a[1 + j])))] \o <<R(a[8]), R(a[9])>>])

RECURSIVE Take(_, _, _)
Take(w, o, n) == Cat([i \in 1..((Len(w)) \div 5) |-> [j \in 1..n |-> w[5 * (i - 1) + o + j]]])
Exp(s, e) ==
    LET a == e.a p == s.p IN
    CASE e.op = "new" -> LET q == Prob(a) IN OK(<<5 * (q.N + 1), Len(Bounds(q, TRUE))>>)
      [] e.op = "cost" -> OK(<<Cost(p, s.w, Zero(p))[1]>>)
      [] e.op = "grad" -> OK(<<Cost(p, s.w, a)[2]>>)
      [] e.op = "con" -> OK(Vals(Con(p, s.w, Zero(p))))
      [] e.op = "jac" -> OK(Ders(Con(p, s.w, a)))
      [] e.op = "bnd" -> OK(Bounds(p, TRUE) \o Bounds(p, FALSE))
      [] e.op = "sol" -> OK(Take(s.sol, 0, 3) \o Take(s.sol, 3, 2) \o [i \in 1..(p.N + 1) |-> TimeOf(p, i - 1)] \o <<TimeOf(p, p.N)>>)
      \* result handed over by a solver, with its multipliers (read back for a warm start)
      [] e.op = "ipopt" -> OK([i \in 1..Len(a) |-> R(a[i] + 1)] \o [i \in 1..Len(a) |-> R(a[i] - 1)] \o [i \in 1..Len(Bounds(p, TRUE)) |-> i])
      [] e.op = "snopt" -> LET m == Len(Bounds(p, TRUE)) + 1 IN
            OK([i \in 1..Len(a) |-> R(a[i] + 2)] \o [i \in 1..m |-> i - 1] \o [i \in 1..Len(a) |-> 3] \o [i \in 1..m |-> 4])
      [] e.op = "guess" -> IF a[1] = p.N + 1 /\ a[2] = p.N + 1 THEN OK(<<>>) ELSE Fail
      [] e.op = "init" -> OK(s.guess)
      [] e.op = "spl" -> OK(Spline(a))
      [] e.op = "grid" -> OK(Grid(a))
      [] e.op = "og" -> OK(Guess(a))
      [] OTHER -> OK(<<>>)
Match(s, e) == e.x = Exp(s, e).x /\ e.r = Exp(s, e).r
Nxt(s, e) ==
    LET a == e.a IN
    CASE e.op = "new" -> [S0 EXCEPT !.p = Prob(a), !.sol = [i \in 1..(5 * (a[1] + 1)) |-> 0]]
      [] e.op = "set" -> IF a[1] = 1 THEN [s EXCEPT !.w = Tail(a), !.sol = [i \in 1..(Len(a) - 1) |-> R(a[i + 1])]] ELSE s
      [] e.op \in {"ipopt", "snopt"} -> [s EXCEPT !.sol = [i \in 1..Len(a) |-> R(a[i])]]
      [] e.op = "x0" -> [s EXCEPT !.p.x0 = <<R(a[1]), R(a[2]), R(a[3])>>, !.sol = [i \in 1..Len(s.sol) |-> IF i <= 3 THEN R(a[i]) ELSE s.sol[i]]]
      [] e.op = "T" -> [s EXCEPT !.p.h = a[1]]
      \* guess: number of states, number of controls, then node by node
      [] e.op = "guess" -> IF a[1] = s.p.N + 1 /\ a[2] = s.p.N + 1 THEN [s EXCEPT !.guess = [i \in 1..(Len(a) - 2) |-> R(a[i + 2])]] ELSE s
      [] OTHER -> s
=============================================================================
