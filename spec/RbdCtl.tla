------------------------------- MODULE RbdCtl -------------------------------
(* What is built on the robot models of ct_rbd: Jacobians taken from the base to the world, task-space Jacobians with their inverses and
   null spaces (cached per state), operational-space models, the inverse-dynamics controller of a floating base, the whole-body joint
   controller, the LQR around an inverse-dynamics set point, the nonlinear program of inverse kinematics and the initial guesses of optimal control.
   Mechanics: modules RbdBase and RbdSys.                                                                                             *)
EXTENDS RbdSys
CInit(b) == [b |-> b, ins |-> 0, p |-> <<<<Id3, Z3>>, <<Id3, Z3>>>>,
    des |-> <<Id3, Z3>>, dv |-> Z6, kp |-> Z6, kd |-> Z6,                    \* inverse-dynamics controller
    wg |-> <<0, 0>>, wp |-> Rep(Bot[b].nj, 0),                               \* joint controller
    tq |-> Rep(Bot[b].nj, 0),                                                \* joint velocities the task Jacobian was last given
    W |-> <<0, 0, 0, 0>>, lo |-> <<>>, up |-> <<>>, tg |-> <<Id3, Z3>>, rg |-> 0, w |-> <<>>,  \* inverse kinematics
    ld |-> FALSE, lq |-> <<>>]                                               \* LQR: designed, set point
C0 == CInit(1)
TaskJ(n, qd) == [k \in 1..(3 * (n + 6)) |-> LET i == (k - 1) \div (n + 6)  j == (k - 1) % (n + 6) IN Dat(7, 18 * i + j) + qd[((i + j) % n) + 1] + (IF i = j THEN 20 ELSE 0)]
TaskD(n, qd) == [k \in 1..(3 * (n + 6)) |-> LET i == (k - 1) \div (n + 6)  j == (k - 1) % (n + 6) IN Dat(9, 18 * i + j) + qd[((i + 2 * j) % n) + 1]]
IDot(a, b_) == LET f[i \in 0..Len(a)] == IF i = 0 THEN 0 ELSE f[i - 1] + a[i] * b_[i] IN f[Len(a)]
Apply(m, n, v) == [r \in 1..3 |-> IDot(SubSeq(m, (r - 1) * (n + 6) + 1, r * (n + 6)), v)]
Mtx(rows, n, sd) == [k \in 1..(rows * n) |-> Dat(sd, k - 1)]
SubC(m, n, r0) == [j \in 1..n |-> <<m[r0 * n + j] % P, m[(r0 + 1) * n + j] % P, m[(r0 + 2) * n + j] % P>>]   \* columns of three rows
Each(M, c) == [j \in 1..Len(c) |-> Mv(M, c[j])]
AddC(c, d) == [j \in 1..Len(c) |-> V3(c[j], d[j])]
\* contact Jacobian of end-effector i in the world
ConW(bi, T, q, i) == Rows3(Neg9(Mm(T[1], Skew(EeT(bi, q, i)[2]))), T[1], Each(T[1], TLCEval(Tails(Cols(bi, q, i)))))
CS(c) == Flat([i \in 1..Len(c) |-> <<C(c[i]), S(c[i])>>])
CExp(s, e) ==
    LET a == e.a  bi == s.b  b == Bot[bi]  n == b.nj  ne == Len(Ees[bi]) IN
    \* a = slot r w v qd seeds: J = [R, 0, R Jo; - R [r], R, R Jt] and its derivative with R' = R [w], r' = Jt qd
    CASE e.op = "fj" ->
            LET Ro == s.p[a[1]][1]  r == V(a, 2)  qd == Sub3(a, 11, n)
                Jb == TLCEval(Mtx(6, n, a[11 + n]))  Db == TLCEval(Mtx(6, n, a[12 + n]))
                dR == TLCEval(Mm(Ro, Skew(V(a, 5))))
                Jo == TLCEval(SubC(Jb, n, 0))  Jt == TLCEval(SubC(Jb, n, 3))
                f[i \in 0..n] == IF i = 0 THEN Z3 ELSE V3(f[i - 1], Vs(qd[i] % P, Jt[i]))
                rd == TLCEval(f[n])
                der(c, d) == AddC(Each(dR, c), Each(Ro, d))
                A == Mm(dR, Skew(r))  B_ == Mm(Ro, Skew(rd)) IN
            OK(Rows3(Ro, Z9, Each(Ro, Jo)) \o Rows3(Neg9(Mm(Ro, Skew(r))), Ro, Each(Ro, Jt))
               \o Rows3(dR, Z9, der(Jo, TLCEval(SubC(Db, n, 0)))) \o Rows3(Neg9([k \in 1..9 |-> (A[k] + B_[k]) % P]), dR, der(Jt, TLCEval(SubC(Db, n, 3)))))
      [] e.op = "ojq" -> OK(CASE a[1] = 0 -> Red(TaskJ(n, s.tq)) [] a[1] = 1 -> Red(TaskD(n, s.tq)) [] a[1] \in {2, 3} -> Rep(10, 0)
                              [] a[1] = 4 -> Rep(4, 0) [] OTHER -> <<0>>)
      \* desired acceleration of the base: change with the velocity, linear part, angles of the orientation error
      [] e.op = "ia" ->
            LET T == s.p[a[1]]  v == Sub3(a, 2, 6)  d == Vm(s.des[2], T[2])
                lin == V3(Tv(T[1], [i \in 1..3 |-> Mul(s.kp[3 + i] % P, d[i])]), [i \in 1..3 |-> (s.kd[3 + i] * (s.dv[3 + i] - v[3 + i])) % P])
                full == \A i \in 1..3 : s.kp[i] # 0 IN
            OK([i \in 1..6 |-> (0 - s.kd[i] * v[i]) % P] \o lin \o (IF full THEN Mm(Tr(T[1]), s.des[1]) \o <<1>> ELSE Z3))
      [] e.op = "it" -> OK(<<0>>)
      \* a = t angles position q w v qd
      [] e.op = "wc" -> OK([i \in 1..n |-> (s.wg[1] * (s.wp[i] - a[7 + i]) - s.wg[2] * a[13 + n + i]) % P])
      \* a = slot q qd qdd w v acc
      [] e.op = "om" ->
            LET T == s.p[a[1]]  q == Sub3(a, 2, n)  qd == Sub3(a, 2 + n, n)  qdd == Sub3(a, 2 + 2 * n, n)
                w == V(a, 2 + 3 * n)  v == V(a, 5 + 3 * n)
                base == [w |-> w, al |-> V(a, 8 + 3 * n), a |-> Vm(V3(V(a, 11 + 3 * n), Cr(w, v)), GravB(T))]
                rest == [w |-> Z3, al |-> Z3, a |-> Neg(GravB(T))]
                f == TLCEval(Rnea(b, q, qd, qdd, base, s.ins, 0))  g == TLCEval(Rnea(b, q, Rep(n, 0), Rep(n, 0), rest, s.ins, 0)) IN
            OK(f.base \o f.tau \o g.base \o g.tau \o Flat([i \in 1..ne |-> TLCEval(ConW(bi, T, q, i))])
               \o Red(Sub3(a, 2 + 3 * n, 6) \o qd) \o Red(Sub3(a, 8 + 3 * n, 6) \o qdd) \o T[1] \o T[2] \o <<0, 0, 0>>)
      [] e.op = "oo" ->
            LET qd == Sub3(a, 2 + n, n)  v == Sub3(a, 2 + 3 * n, 6) \o qd  ac == Sub3(a, 8 + 3 * n, 6) \o Sub3(a, 2 + 2 * n, n)
                J == TLCEval(TaskJ(n, qd))  x == Apply(J, n, ac)  y == Apply(TLCEval(TaskD(n, qd)), n, v) IN
            OK(Red(Apply(J, n, v)) \o [i \in 1..3 |-> (x[i] + y[i]) % P] \o Red(SubSeq(qd, n - 2, n)) \o Rep(6, 0))
      \* inverse kinematics as a nonlinear program
      [] e.op = "nt" -> LET T == s.p[a[2]] IN OK(T[1] \o T[2])
      [] e.op = "nz" -> [r |-> <<>>, x |-> 1]
      [] e.op = "ns" -> OK(CS(s.w) \o CS(s.w) \o Red(s.lo) \o Red(s.up) \o <<0, n, n, n>>)
      [] e.op = "ne" -> LET d == TLCEval(Vm(EeT(bi, s.w, 1)[2], s.tg[2]))  wv(x) == <<Mul(s.W[1], x[1]), Mul(s.W[2], x[2]), Mul(s.W[3], x[3])>>
                            g == wv(d)  c == TLCEval(Tails(Cols(bi, s.w, 1))) IN
                        OK(<<Div(D3(d, g), 2)>> \o [i \in 1..n |-> D3(c[i], g)]
                           \o [k \in 1..(n * n) |-> LET i == ((k - 1) \div n) + 1  j == ((k - 1) % n) + 1 IN Mul(a[1], (D3(c[i], wv(c[j])) + (IF i = j THEN s.rg ELSE 0)) % P)])
      [] e.op = "nn" -> OK(<<0, 0, 1>>)
      \* LQR: a = how, weights, q, qd
      [] e.op = "ld" -> OK(<<1>> \o Rnea(b, Sub3(a, 4, n), Sub3(a, 4 + n, n), Rep(n, 0), Fixed, s.ins, 0).tau \o <<0, 0, 0, 0, 1>>)
      [] e.op = "lc" -> OK(<<0, IF ~s.ld \/ Sub3(a, 2, 2 * n) = s.lq THEN 1 ELSE 0>>)
      \* optimal control of the robot, initial guesses: a = actuators, stages, q, qd, actuator state, seed of the gain [, how, final q, final qd]
      [] e.op \in {"fst", "fex", "fin"} ->
            LET k == a[2]  q == Sub3(a, 3, n)  qd == Sub3(a, 3 + n, n)  ac == Sub3(a, 3 + 2 * n, n)
                m == IF a[1] = 1 THEN 3 * n ELSE 2 * n
                K_ == IF a[3 + 3 * n] = 0 THEN Rep(n * m, 0) ELSE Mtx(n, m, a[3 + 3 * n])
                own == IF a[1] = 1 THEN Red(ac) ELSE <<>>
                u == TLCEval(IF e.op = "fex" THEN Red(ac) ELSE IF a[1] = 1 THEN Rep(n, 0) ELSE Rnea(b, q, qd, Rep(n, 0), Fixed, s.ins, 0).tau)
                x == CS(q) \o Red(qd)  z == <<k + 1, k, k, k + 1, k>> IN
            OK(IF e.op = "fin" THEN z \o u \o Red(K_) \o Red(K_) \o x \o CS(Sub3(a, 5 + 3 * n, n)) \o Red(Sub3(a, 5 + 4 * n, n)) \o own \o <<0, 0, 0>>
               ELSE z \o u \o u \o Red(K_) \o u \o Red(K_) \o x \o own \o x \o own)
      [] e.op = "fit" -> OK(<<1, 0, 0>>)
      [] OTHER -> OK(<<>>)
CNxt(s, e) ==
    LET a == e.a  n == Bot[s.b].nj IN
    CASE e.op = "bot" -> CInit(a[1] + 1)
      [] e.op = "ins" -> [s EXCEPT !.ins = a[1]]
      [] e.op = "ps" -> [s EXCEPT !.p[a[1]] = TLCEval(Pose(a, 3))]
      [] e.op = "oju" -> [s EXCEPT !.tq = Sub3(a, 2, n)]
      [] e.op = "ids" -> [s EXCEPT !.des = s.p[a[1]], !.dv = Sub3(a, 2, 6)]
      [] e.op = "ikp" -> [s EXCEPT !.kp = a]
      [] e.op = "ikd" -> [s EXCEPT !.kd = a]
      [] e.op = "inew" -> IF a[1] = 0 THEN [s EXCEPT !.des = <<Id3, Z3>>, !.dv = Z6, !.kp = Z6, !.kd = Z6] ELSE s
      [] e.op = "wg" -> [s EXCEPT !.wg = a]
      [] e.op = "wp" -> [s EXCEPT !.wp = a]
      [] e.op = "wj" -> [s EXCEPT !.wp[a[1] + 1] = a[2]]
      [] e.op = "nnew" -> [s EXCEPT !.W = Sub3(a, 1, 4), !.lo = Sub3(a, 5, n), !.up = Sub3(a, 5 + n, n), !.tg = <<Id3, Z3>>, !.rg = 0, !.w = Rep(n, 0)]
      [] e.op = "nt" -> [s EXCEPT !.tg = s.p[a[2]]]
      [] e.op = "nr" -> [s EXCEPT !.rg = a[1]]
      [] e.op = "ng" -> [s EXCEPT !.w = a]
      [] e.op = "nx" -> IF a[1] = 1 THEN [s EXCEPT !.w = Sub3(a, 2, n)] ELSE s
      [] e.op = "lnew" -> [s EXCEPT !.ld = FALSE, !.lq = Rep(2 * n, 0)]
      [] e.op = "ld" -> [s EXCEPT !.ld = TRUE, !.lq = Sub3(a, 4, 2 * n)]
      [] OTHER -> s
\* entries computed with tolerance (all others are exact)
Tol(n, e, k) == CASE e.op = "ojq" -> IF e.a[1] < 2 THEN {} ELSE 1..k [] e.op \in {"it", "nn"} -> {1, 2} [] e.op = "lc" -> {1} [] e.op = "om" -> (k - 2)..k [] e.op = "oo" -> (k - 5)..k
                  [] e.op = "ns" -> {k - 3} [] e.op = "ld" -> {n + 2, n + 3, n + 4, n + 5} [] e.op = "fin" -> (k - 2)..k [] e.op = "fit" -> {2, 3} [] OTHER -> {}
CMatch(s, e) == LET m == CExp(s, e)  k == Len(m.r)  t == Tol(Bot[s.b].nj, e, k) IN
    e.x = m.x /\ Len(e.r) = k /\ \A i \in 1..k : IF i \in t THEN e.r[i] - m.r[i] \in -1..1 ELSE e.r[i] = m.r[i]
=============================================================================
