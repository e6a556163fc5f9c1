------------------------------- MODULE RbdSys -------------------------------
(* ct_rbd around the robot models: poses in either storage, robot states and their vectors, end-effectors (positions, velocities, forces on
   links), constraint Jacobians, the dynamics interfaces and the systems built on them, the contact model and the linearisation.
   Mechanics: module RbdBase.  State: current robot, link inertias, three poses, registered solvers.                                       *)
EXTENDS RbdBase, FiniteSets
Ees == TLCEval([k \in 1..5 |-> LET j == <<<<2>>, <<3>>, <<1>>, <<1>>, <<13, 14, 15, 16>>>>[k] IN [i \in 1..Len(j) |-> Bot[k].J[j[i]]]])
Sub3(a, i, n) == SubSeq(a, i, i + n - 1)
V(a, i) == <<a[i] % P, a[i + 1] % P, a[i + 2] % P>>
Flat(ss) == LET f[i \in 0..Len(ss)] == IF i = 0 THEN <<>> ELSE f[i - 1] \o ss[i] IN f[Len(ss)]
Rep(n, x) == [i \in 1..n |-> x]
LinkOf(b, e) == Bot[b].fr[Ees[b][e]][1]
\* position of the end-effector and of the joint frames in base coordinates, velocities relative to the base for joint rates qd
EeT(b, q, e) == Frame(Bot[b], q, Ees[b][e])
Kin(b, q, qd) == Fwd(b, q, Red(qd), Zn(b), Still)      \* [w] of every link in link coordinates
\* geometric Jacobian with a column for every joint
Cols(bi, q, e) == LET b == Bot[bi]  p == Path(b, LinkOf(bi, e))  x == EeT(bi, q, e)[2] IN
    [i \in 1..b.nj |-> IF \E k \in 1..Len(p) : p[k] = i
                       THEN LET W == TLCEval(World(b, q, i)) z == Col(W[1], 3) IN z \o Cr(z, Vm(x, W[2])) ELSE Z6]
RelVel(bi, q, qd, e) == LET c == TLCEval(Cols(bi, q, e))
                            f[i \in 0..Len(c)] == IF i = 0 THEN Z3 ELSE V3(f[i - 1], Vs(qd[i] % P, SubSeq(c[i], 4, 6))) IN f[Len(c)]
BaseVel(bi, q, qd, w, v, e) == V3(V3(RelVel(bi, q, qd, e), v), Cr(w, EeT(bi, q, e)[2]))
\* wrench at the end-effector (moment n, force f, base coordinates, applied at x) as a wrench on link l in link coordinates
OnLink(b, q, l, x, n, f) == LET W == World(b, q, l) IN Tv(W[1], V3(n, Cr(Vm(x, W[2]), f))) \o Tv(W[1], f)
\* velocity of the origin and angular velocity of link l, both in base coordinates
LinkVel(b, q, qd, l) ==
    LET p == Path(b, l)
        f[k \in 0..Len(p)] == IF k = 0 THEN <<Z3, Z3, Z3>> ELSE     \* <<omega, velocity of the origin, origin>>
            LET g == TLCEval(f[k - 1])  W == World(b, q, p[k]) IN
            <<V3(g[1], Vs(qd[p[k]] % P, Col(W[1], 3))), V3(g[2], Cr(g[1], Vm(W[2], g[3]))), W[2]>> IN f[Len(p)]
\* time derivative of the translational Jacobian columns
DCols(bi, q, qd, e) ==
    LET b == Bot[bi]  p == Path(b, LinkOf(bi, e))  x == EeT(bi, q, e)[2]  xd == TLCEval(RelVel(bi, q, qd, e)) IN
    [i \in 1..b.nj |-> IF \E k \in 1..Len(p) : p[k] = i
        THEN LET L == TLCEval(LinkVel(b, q, qd, i))  z == Col(World(b, q, i)[1], 3) IN V3(Cr(Cr(L[1], z), Vm(x, L[3])), Cr(z, Vm(xd, L[2]))) ELSE Z3]
\* three rows of the constraint Jacobian of one end-effector
Rows3(A, B, c) == Flat([r \in 1..3 |-> R3(A, r) \o R3(B, r) \o [i \in 1..Len(c) |-> c[i][r]]])
Tails(c) == [i \in 1..Len(c) |-> SubSeq(c[i], 4, 6)]
In(mask, e) == ((mask \div (2 ^ (e - 1))) % 2) = 1
ConJ(bi, q, mask) == Flat([e \in 1..Len(Ees[bi]) |-> IF In(mask, e) THEN Rows3(Neg9(Skew(EeT(bi, q, e)[2])), Id3, TLCEval(Tails(Cols(bi, q, e)))) ELSE Rep(3 * (6 + Bot[bi].nj), 0)])
ConD(bi, q, qd, mask) == Flat([e \in 1..Len(Ees[bi]) |-> IF In(mask, e) THEN Rows3(Neg9(Skew(RelVel(bi, q, qd, e))), Z9, TLCEval(DCols(bi, q, qd, e))) ELSE Rep(3 * (6 + Bot[bi].nj), 0)])
\* rates of the angles (x, y, z) of Rx Ry Rz for angular velocity w in base coordinates; dual numbers, direction d: 1..3 angle, 4..6 component of w
Rates(c, w, d) ==
    LET cb == <<C(c[2]), IF d = 2 THEN (0 - S(c[2])) % P ELSE 0>>  sb == <<S(c[2]), IF d = 2 THEN C(c[2]) ELSE 0>>
        cc == <<C(c[3]), IF d = 3 THEN (0 - S(c[3])) % P ELSE 0>>  sc == <<S(c[3]), IF d = 3 THEN C(c[3]) ELSE 0>>
        ww(i) == <<w[i], IF d = 3 + i THEN 1 ELSE 0>>
        r1 == Dd(Ds(Dm(cc, ww(1)), Dm(sc, ww(2))), cb) IN
    <<r1, Da(Dm(sc, ww(1)), Dm(cc, ww(2))), Ds(ww(3), Dm(sb, r1))>>
\* derivative of R v with respect to angle d: R changes by the turning axis (in world coordinates) of that angle
Axis(c, d) == CASE d = 1 -> <<1, 0, 0>> [] d = 2 -> Mv(Rx(c[1]), <<0, 1, 0>>) [] OTHER -> Mv(Mm(Rx(c[1]), Ry(c[2])), <<0, 0, 1>>)
-----------------------------------------------------------------------------
OK(r) == [r |-> r, x |-> 0]
PI == [T |-> <<Id3, Z3>>, st |-> 1, c |-> <<0, 0, 0>>]
S0 == [b |-> 1, ins |-> 0, p |-> <<PI, PI, PI>>, ik |-> {}]
PRep(T) == T[1] \o T[1] \o T[1] \o T[2]
Neg981 == (0 - G981) % P
GravB(T) == Tv(T[1], <<0, 0, Neg981>>)
Pt(s, e) == LET a == e.a IN
    CASE e.op = "pset" -> LET how == a[2] IN [T |-> IF how = 9 THEN <<Id3, Z3>> ELSE Pose(a, 4), st |-> IF how <= 3 THEN a[3] ELSE s.p[a[1]].st,
                                              c |-> IF how = 9 THEN <<0, 0, 0>> ELSE Sub3(a, 4, 3)]
      [] e.op = "pref" -> [s.p[3] EXCEPT !.T = Comp(Inv(s.p[a[2]].T), s.p[a[1]].T)]
      [] OTHER -> s.p[a[1]]
\* the block every representation of a state carries: orientation, position, joint positions, velocities
Block(a, k, n) == Pose(a, k)[1] \o Red(Sub3(a, k + 3, 3 + n + 6 + n))
Exp(s, e) ==
    LET a == e.a  bi == s.b  b == Bot[bi]  n == b.nj  ne == Len(Ees[bi]) IN
    CASE e.op = "pset" -> LET p == Pt(s, e) IN OK(PRep(p.T) \o <<p.st>>)
      [] e.op = "pref" -> OK(PRep(Pt(s, e).T))
      [] e.op = "pcp" -> OK(PRep(s.p[a[1]].T))
      [] e.op = "near" -> OK(<<IF s.p[a[1]].T = s.p[a[2]].T THEN 1 ELSE 0>>)
      [] e.op = "prot" -> LET T == s.p[a[1]].T  v == V(a, 2)  f == Mv(T[1], v)  g == Tv(T[1], v) IN
                          OK(f \o f \o g \o g \o g \o Z3 \o GravB(T) \o Mm(T[1], Skew(v)))
      \* end-effector e, base pose in slot; a = <<e, slot>> q
      [] e.op = "ee" -> LET T == TLCEval(EeT(bi, Sub3(a, 3, n), a[1]))  W == TLCEval(Comp(s.p[a[2]].T, T)) IN
                        OK(<<LinkOf(bi, a[1])>> \o T[2] \o T[1] \o T[1] \o T[2] \o W[2] \o W[1] \o W[1] \o W[2])
      [] e.op = "eev" -> LET q == Sub3(a, 3, n)  vb == TLCEval(BaseVel(bi, q, Sub3(a, 3 + n, n), V(a, 3 + 2 * n), V(a, 6 + 2 * n), a[1])) IN
                         OK(vb \o Mv(s.p[a[2]].T[1], vb))
      \* a = <<e, slot>> q moment force
      [] e.op = "eef" -> LET q == Sub3(a, 3, n)  T == s.p[a[2]].T  x == TLCEval(EeT(bi, q, a[1])[2])  l == LinkOf(bi, a[1])
                             nn == V(a, 3 + n)  f == V(a, 6 + n)  fb == Tv(T[1], f)  nb == Tv(T[1], nn) IN
                         OK(OnLink(b, q, l, x, Z3, fb) \o OnLink(b, q, l, x, nb, fb) \o OnLink(b, q, l, T[2], Mv(T[1], nn), Mv(T[1], f)))
      [] e.op = "lnk" -> LET W == TLCEval(World(b, Sub3(a, 2, n), a[1])) IN OK(Hom(W) \o Frc(Inv(W)))
      [] e.op = "jb" -> LET c == TLCEval(Cols(bi, Sub3(a, 2, n), a[1])) IN OK([k \in 1..(6 * n) |-> c[((k - 1) % n) + 1][((k - 1) \div n) + 1]])
      [] e.op = "cj" -> OK(ConJ(bi, Sub3(a, 2, n), a[1]))
      [] e.op = "cd" -> OK(ConD(bi, Sub3(a, 2, n), Sub3(a, 2 + n, n), a[1]))
      [] e.op = "cp" -> OK(Rep(2, 0))
      \* states: a = <<storage>> angles position q w v qd [act]; every representation carries the same block
      [] e.op = "sv" -> LET k == TLCEval(Block(a, 2, n)) IN OK(Flat(Rep(13, k)))
      [] e.op = "sa" -> LET k == TLCEval(Block(a, 2, n) \o Red(Sub3(a, 14 + 2 * n, 3))) IN OK(Flat(Rep(6, k)))
      [] e.op = "sf" -> LET q == Red(Sub3(a, 1, n))  d == Red(Sub3(a, 1 + n, n))  x == Red(Sub3(a, 1 + 2 * n, 3)) IN
                        OK(q \o d \o x \o q \o d \o x \o q \o d \o x \o q \o d \o q \o d \o x \o q \o d \o q \o d \o q \o d)
      \* derivative of the state: a = <<storage>> angles position q w v qd acceleration(6) qdd
      [] e.op = "sd" -> LET T == TLCEval(Pose(a, 2))  w == V(a, 8 + n)  v == V(a, 11 + n)  qd == Red(Sub3(a, 14 + n, n))  ac == Red(Sub3(a, 14 + 2 * n, 6 + n))
                            r == TLCEval(Rates(Sub3(a, 2, 3), w, 0))  t == Mv(T[1], v) \o qd \o ac IN
                        OK(<<r[1][1], r[2][1], r[3][1]>> \o t \o Mm(T[1], Skew(w)) \o t \o ac)
      \* dynamics, fixed base: a = <<ext>> q qd qdd
      [] e.op = "xid" -> OK(Rnea(b, Sub3(a, 2, n), Sub3(a, 2 + n, n), Sub3(a, 2 + 2 * n, n), Fixed, s.ins, a[1]).tau)
      [] e.op = "xfd" -> OK([i \in 1..n |-> 1000000 * a[1 + 2 * n + i]])
      \* floating base: a = <<ext, slot>> q qd qdd v(6) acc(6)
      [] e.op = "xfa" -> LET w == V(a, 3 + 3 * n)  v == V(a, 6 + 3 * n)
                             base == [w |-> w, al |-> V(a, 9 + 3 * n), a |-> Vm(V3(V(a, 12 + 3 * n), Cr(w, v)), GravB(s.p[a[2]].T))]
                             r == TLCEval(Rnea(b, Sub3(a, 3, n), Sub3(a, 3 + n, n), Sub3(a, 3 + 2 * n, n), base, s.ins, a[1])) IN OK(r.base \o r.tau)
      [] e.op = "xff" -> OK([i \in 1..n |-> 1000000 * a[2 + 2 * n + i]] \o [i \in 1..6 |-> 1000000 * a[8 + 3 * n + i]])
      [] e.op = "xfi" -> OK(Rep(6 + n, 0))
      [] e.op = "pfd" -> OK(Rep(6 + n + 3 * ne, 0))
      [] e.op = "pid" -> OK(Rep(6 + 2 * n, 0))
      \* systems, fixed base: a = <<variant, slot>> q qd qdd force(3 per end-effector)
      [] e.op = "fs" -> OK([i \in 1..n |-> 1000000 * a[2 + n + i]] \o [i \in 1..n |-> 1000000 * a[2 + 2 * n + i]]
                           \o (IF (a[1] % 10) \in {4, 5} THEN [i \in 1..n |-> 1000000 * a[2 + i]] ELSE <<>>))
      [] e.op = "fk" -> OK((IF a[1] = 0 THEN [i \in 1..n |-> a[1 + n + i] % P] ELSE <<>>) \o [i \in 1..n |-> a[1 + 2 * n + i] % P])
      \* floating base: derivative of the position part, a = <<variant>> angles position q w v qd
      [] e.op = "gp" -> LET T == TLCEval(Pose(a, 2))  w == V(a, 8 + n)  t == Mv(T[1], V(a, 11 + n)) \o Red(Sub3(a, 14 + n, n))
                            r == TLCEval(Rates(Sub3(a, 2, 3), w, 0)) IN
                        OK((IF a[1] % 2 = 1 THEN Mm(T[1], Skew(w)) ELSE <<r[1][1], r[2][1], r[3][1]>>) \o t)
      [] e.op = "gr" -> OK(Rep(6 + n, 0))
      \* contact forces: a = <<smoothing, alpha, normal smoothing, k, d, offset, mask, slot>> q qd w v
      [] e.op = "cm" -> LET T == s.p[a[8]].T  q == Sub3(a, 9, n)  low == e.a[8] = 1
                            one(i) == LET x == V3(Mv(T[1], EeT(bi, q, i)[2]), T[2])
                                          vel == Mv(T[1], BaseVel(bi, q, Sub3(a, 9 + n, n), V(a, 9 + 2 * n), V(a, 12 + 2 * n), i))
                                          damp == Vs((0 - a[5]) % P, vel)
                                          fac == IF a[1] = 0 THEN 1 ELSE IF a[2] = 0 THEN Div(1, 2) ELSE IF low THEN 1 ELSE 0
                                          spring == IF a[3] = 1 THEN a[4] ELSE IF low THEN Mul((0 - a[4]) % P, Sub(x[3], a[6] % P)) ELSE 0 IN
                                      IF ~In(a[7], i) \/ (a[1] = 0 /\ ~low) THEN Z3 ELSE V3(Vs(fac, damp), <<0, 0, spring>>) IN
                        OK(Flat([i \in 1..ne |-> TLCEval(one(i))]))
      \* linearisation of the position part, floating base: a = <<c>> angles position q w v qd u
      [] e.op = "lx" -> LET c == Sub3(a, 2, 3)  T == TLCEval(Pose(a, 2))  w == V(a, 8 + n)  v == V(a, 11 + n)
                            D == TLCEval([d \in 1..6 |-> Rates(c, w, d)])
                            Q == TLCEval([d \in 1..3 |-> Cr(Axis(c, d), Mv(T[1], v))]) IN
                        OK([k \in 1..9 |-> D[((k - 1) % 3) + 1][((k - 1) \div 3) + 1][2]] \o [k \in 1..9 |-> Q[((k - 1) % 3) + 1][((k - 1) \div 3) + 1]]
                           \o [k \in 1..9 |-> D[((k - 1) % 3) + 4][((k - 1) \div 3) + 1][2]] \o T[1])
      [] e.op = "lu" -> LET m == n + 6 * b.fl IN OK(Rep(m * n, 0) \o [k \in 1..(m * n) |-> IF ((k - 1) \div n) = ((k - 1) % n) + 6 * b.fl THEN 1000000 ELSE 0])
      [] e.op = "ld" -> LET m == n + 6 * b.fl IN OK(Rep(m, 0) )
      \* inverse kinematics: every solution reaches the pose and keeps the joint limits; the joint positions themselves are among them; closest one
      [] e.op = "ik" -> OK(<<0, 0, 1000000, 0>>)
      [] e.op = "iks" -> LET h == 100 * a[1] + a[2] IN [r |-> <<>>, x |-> IF a[2] >= 100 \/ h \in s.ik THEN 1 ELSE 0]
      [] e.op = "ikg" -> LET h == 100 * a[1] + a[2] IN [r |-> IF a[2] >= 100 THEN <<>> ELSE <<IF h \in s.ik THEN 1 ELSE 0>>, x |-> IF a[2] >= 100 THEN 1 ELSE 0]
      \* task-space cost of the end-effector position: a = <<weights(3), reference(3)>> q
      [] e.op = "tc" -> LET q == Sub3(a, 7, n)  d == TLCEval(Vm(EeT(bi, q, 1)[2], V(a, 4)))  g == <<Mul(a[1], d[1]), Mul(a[2], d[2]), Mul(a[3], d[3])>>  c == TLCEval(Tails(Cols(bi, q, 1))) IN
                        OK(<<Div(D3(d, g), 2)>> \o [i \in 1..(2 * n) |-> IF i <= n THEN D3(c[i], g) ELSE 0]
                           \o [k \in 1..(4 * n * n) |-> LET i == ((k - 1) \div (2 * n)) + 1  j == ((k - 1) % (2 * n)) + 1 IN
                                  IF i <= n /\ j <= n THEN D3(c[i], <<Mul(a[1], c[j][1]), Mul(a[2], c[j][2]), Mul(a[3], c[j][3])>>) ELSE 0])
      [] e.op = "tg" -> OK(<<0, 0>>)
      [] e.op = "see" -> OK(<<a[2]>>)
      [] e.op = "s0" -> LET k == TLCEval(Block(a, 2, n)) IN OK(Flat(Rep(5, k)))
      [] OTHER -> OK(<<>>)
Nxt(s, e) ==
    LET a == e.a IN
    CASE e.op = "bot" -> [S0 EXCEPT !.b = a[1] + 1]
      [] e.op = "ins" -> [s EXCEPT !.ins = a[1]]
      [] e.op = "pset" -> [s EXCEPT !.p[a[1]] = Pt(s, e)]
      [] e.op = "pref" -> [s EXCEPT !.p[3] = Pt(s, e)]
      [] e.op = "pcp" -> [s EXCEPT !.p[a[2]] = s.p[a[1]]]
      [] e.op = "iks" -> IF a[2] >= 100 THEN s ELSE [s EXCEPT !.ik = @ \cup {100 * a[1] + a[2]}]
      [] OTHER -> s
NearOps == {"xfd", "xff", "xfi", "pfd", "pid", "fs", "gr", "lu", "ld", "cp", "ik", "tg"}
Near(a, b_) == Len(a) = Len(b_) /\ \A i \in 1..Len(a) : a[i] - b_[i] \in -1..1
Match(s, e) == LET m == Exp(s, e) IN e.x = m.x /\ IF e.op \in NearOps THEN Near(e.r, m.r) ELSE e.r = m.r
=============================================================================
