------------------------------ MODULE RbdCtlMC ------------------------------
(* Laws of the specification RbdCtl along a walk through configurations (seed sd) of the arm and the quadruped: the contact Jacobian in
   the world gives the world velocity of an end-effector; the derivative of a world Jacobian gives the acceleration; the gradient of the
   inverse kinematics cost is the derivative of its value along a joint motion; the controller asks for nothing at its set point.       *)
EXTENDS RbdCtl
CONSTANT Depth
VARIABLES bt, sd
Init == bt \in {3, 5} /\ sd = 0
Next == sd < Depth /\ sd' = sd + 1 /\ UNCHANGED bt
Q_(n, z) == [i \in 1..n |-> (z * 7 + i * 5 + z * i) % 12]
Ints(n, z) == [i \in 1..n |-> Dat(z, i)]
PDot(a, b_) == LET f[i \in 0..Len(a)] == IF i = 0 THEN 0 ELSE (f[i - 1] + ((a[i] * b_[i]) % P)) % P IN f[Len(a)]
RowOf(m, k, w) == SubSeq(m, (k - 1) * w + 1, k * w)
T_(z) == TLCEval(Pose(<<z % 12, (z + 5) % 12, (z * 7) % 12, 1, 0 - 2, Dat(z, 3)>>, 1))
WorldVelocity_(bi, z) ==
    LET n == Bot[bi].nj  q == TLCEval(Q_(n, z))  qd == TLCEval(Ints(n, z))  w == Red(Ints(3, z + 1))  v == Red(Ints(3, z + 2))  T == T_(z)
        all == TLCEval(w \o v \o Red(qd)) IN
    \A e \in 1..Len(Ees[bi]) : LET J == TLCEval(ConW(bi, T, q, e))  x == Mv(T[1], BaseVel(bi, q, qd, w, v, e)) IN \A k \in 1..3 : PDot(RowOf(J, k, n + 6), all) = x[k]
\* acceleration of a point at r moving with Jt qd in a base turning with w, velocity v, no accelerations of the coordinates
WorldAcceleration_(bi, z) ==
    LET n == Bot[bi].nj  qd == Ints(n, z)  w == Red(Ints(3, z + 1))  v == Red(Ints(3, z + 2))  r == Red(Ints(3, z + 4))  T == T_(z)
        a == <<1>> \o Ints(3, z + 4) \o Ints(3, z + 1) \o Ints(3, z + 2) \o qd \o <<z + 1, z + 2>>
        s == [C0 EXCEPT !.b = bi, !.p[1] = T]
        o == TLCEval(CExp(s, [op |-> "fj", a |-> a]).r)  m == n + 6
        all == TLCEval(w \o v \o Red(qd))
        Jb == Mtx(6, n, z + 1)  Db == Mtx(6, n, z + 2)
        rd == TLCEval([k \in 1..3 |-> PDot(Red(RowOf(Jb, 3 + k, n)), Red(qd))])  rdd == TLCEval([k \in 1..3 |-> PDot(Red(RowOf(Db, 3 + k, n)), Red(qd))])
        vel == TLCEval(V3(V3(v, rd), Cr(w, r)))                         \* velocity of the point in base coordinates
        acc == Mv(T[1], V3(V3(rdd, Cr(w, rd)), Cr(w, vel))) IN          \* d/dt (R vel) with v, w constant in the base
    \A k \in 1..3 : /\ PDot(RowOf(o, 3 + k, m), all) = Mv(T[1], vel)[k]
                    /\ PDot(RowOf(o, 9 + k, m), all) = acc[k]
Descent_(z) ==
    LET n == 6  q == TLCEval(Q_(n, z))  qd == Ints(n, z)
        s == [C0 EXCEPT !.b = 3, !.W = <<2, 1, 3, 0>>, !.tg = T_(z), !.w = q]
        o == TLCEval(CExp(s, [op |-> "ne", a |-> <<1>>]).r)
        d == Vm(EeT(3, q, 1)[2], s.tg[2])  x == TLCEval(RelVel(3, q, qd, 1)) IN
    /\ PDot(SubSeq(o, 2, n + 1), Red(qd)) = D3(<<Mul(2, d[1]), d[2], Mul(3, d[3])>>, x)
    /\ LET H == SubSeq(o, n + 2, n + 1 + n * n)  h == TLCEval([k \in 1..n |-> PDot(RowOf(H, k, n), Red(qd))]) IN PDot(h, Red(qd)) = D3(<<Mul(2, x[1]), x[2], Mul(3, x[3])>>, x)
Servo_(z) ==
    LET T == T_(z)  g == <<1, 2, 3, 4, 5, 6>>  v == Ints(6, z)
        s == [C0 EXCEPT !.b = 5, !.p[1] = T, !.des = T, !.dv = v, !.kp = g, !.kd = g]
        o == TLCEval(CExp(s, [op |-> "ia", a |-> <<1>> \o v]).r) IN
    SubSeq(o, 7, 9) = Z3 /\ SubSeq(o, 10, 19) = Id3 \o <<1>>
WorldVelocity == \A z \in {sd}, bi \in {bt} : WorldVelocity_(bi, z)
WorldAcceleration == \A z \in {sd}, bi \in {bt} : WorldAcceleration_(bi, z)
Descent == \A z \in {sd} : Descent_(z)
Servo == \A z \in {sd} : Servo_(z)
=============================================================================
