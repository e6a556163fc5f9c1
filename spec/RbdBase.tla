------------------------------ MODULE RbdBase ------------------------------
(* Robots as trees of rigid bodies: coordinate transforms, Jacobians, centre of mass, inverse dynamics, inertia matrix; and the
   quadrotor.  First principles (Newton-Euler in three-dimensional vectors), independent of the spatial algebra of the code.
   Joint angles are multiples of a quarter turn plus one of three rational angles, so that sine and cosine are rational; all
   quantities are residues modulo the prime P (module Res): exact.                                                                *)
EXTENDS Integers, Sequences, Res, Robots, TLC
INV5 == TLCEval(Div(1, 5))
INV7 == TLCEval(Div(1, 10000000))
INV10 == TLCEval(Div(1, 10))
G981 == TLCEval(Div(981, 100))
\* three-dimensional vectors and matrices (row major) of residues
D3(a, b) == (((a[1] * b[1]) % P) + ((a[2] * b[2]) % P) + ((a[3] * b[3]) % P)) % P
V3(a, b) == <<(a[1] + b[1]) % P, (a[2] + b[2]) % P, (a[3] + b[3]) % P>>
Vm(a, b) == <<(a[1] - b[1]) % P, (a[2] - b[2]) % P, (a[3] - b[3]) % P>>
Vs(k, a) == <<(k * a[1]) % P, (k * a[2]) % P, (k * a[3]) % P>>
Neg(a) == Vm(<<0, 0, 0>>, a)
Row(m, i) == <<m[3 * i - 2], m[3 * i - 1], m[3 * i]>>
Col(m, i) == <<m[i], m[i + 3], m[i + 6]>>
Mv(m, v) == <<D3(Row(m, 1), v), D3(Row(m, 2), v), D3(Row(m, 3), v)>>
Tv(m, v) == <<D3(Col(m, 1), v), D3(Col(m, 2), v), D3(Col(m, 3), v)>>
Tr(m) == <<m[1], m[4], m[7], m[2], m[5], m[8], m[3], m[6], m[9]>>
Mm(m, n) == LET c1 == Mv(m, Col(n, 1)) c2 == Mv(m, Col(n, 2)) c3 == Mv(m, Col(n, 3)) IN
            <<c1[1], c2[1], c3[1], c1[2], c2[2], c3[2], c1[3], c2[3], c3[3]>>
Cr(a, b) == <<(a[2] * b[3] - a[3] * b[2]) % P, (a[3] * b[1] - a[1] * b[3]) % P, (a[1] * b[2] - a[2] * b[1]) % P>>
Skew(v) == <<0, (0 - v[3]) % P, v[2], v[3], 0, (0 - v[1]) % P, (0 - v[2]) % P, v[1], 0>>
Id3 == <<1, 0, 0, 0, 1, 0, 0, 0, 1>>
Z3 == <<0, 0, 0>>
Red(v) == [i \in DOMAIN v |-> v[i] % P]
\* angle codes 0..11: (code % 4) quarter turns plus 0, atan(3/4), atan(4/3)
Cos5(c) == LET b == <<<<5, 0>>, <<4, 3>>, <<3, 4>>>>[(c \div 4) + 1] IN <<b[1], 0 - b[2], 0 - b[1], b[2]>>[(c % 4) + 1]
Sin5(c) == LET b == <<<<5, 0>>, <<4, 3>>, <<3, 4>>>>[(c \div 4) + 1] IN <<b[2], b[1], 0 - b[2], 0 - b[1]>>[(c % 4) + 1]
C(c) == Mul(Cos5(c) % P, INV5)
S(c) == Mul(Sin5(c) % P, INV5)
Rz(c) == <<C(c), (0 - S(c)) % P, 0, S(c), C(c), 0, 0, 0, 1>>
Len7(t) == <<Mul(t[1] % P, INV7), Mul(t[2] % P, INV7), Mul(t[3] % P, INV7)>>
\* link i relative to its parent: <<rotation, translation>>
Rel(b, q, i) == <<Mm(Red(b.jr[i]), Rz(q[i])), Len7(b.jt[i])>>
Comp(A, B) == <<Mm(A[1], B[1]), V3(Mv(A[1], B[2]), A[2])>>
Inv(A) == <<Tr(A[1]), Neg(Tv(A[1], A[2]))>>
RECURSIVE World(_, _, _)
World(b, q, l) == IF l = 0 THEN <<Id3, Z3>> ELSE Comp(World(b, q, b.par[l]), Rel(b, q, l))
Frame(b, q, f) == LET r == b.fr[f] IN Comp(World(b, q, r[1]), <<Red(r[2]), Len7(r[3])>>)
\* transform k: coordinates of frame X[k][2] into coordinates of frame X[k][1]
Xf(b, q, k) == Comp(Inv(Frame(b, q, b.X[k][1])), Frame(b, q, b.X[k][2]))
Hom(T) == <<T[1][1], T[1][2], T[1][3], T[2][1], T[1][4], T[1][5], T[1][6], T[2][2], T[1][7], T[1][8], T[1][9], T[2][3], 0, 0, 0, 1>>
R3(m, i) == SubSeq(m, 3 * i - 2, 3 * i)
Z9 == <<0, 0, 0, 0, 0, 0, 0, 0, 0>>
Six(a, b_, c, d) == R3(a, 1) \o R3(b_, 1) \o R3(a, 2) \o R3(b_, 2) \o R3(a, 3) \o R3(b_, 3)
              \o R3(c, 1) \o R3(d, 1) \o R3(c, 2) \o R3(d, 2) \o R3(c, 3) \o R3(d, 3)
\* motion: angular first; the frame 2 quantity (w, v) has in frame 1 the components R w and R v + t x R w
Mot(T) == Six(T[1], Z9, Mm(Skew(T[2]), T[1]), T[1])
Frc(T) == Six(T[1], Mm(Skew(T[2]), T[1]), Z9, T[1])
RECURSIVE Path(_, _)
Path(b, l) == IF l = 0 THEN <<>> ELSE Append(Path(b, b.par[l]), l)
Jac(b, q, k) ==
    LET f == b.J[k]  p == Path(b, b.fr[f][1])  e == Frame(b, q, f)[2]
        cs == [i \in 1..Len(p) |-> LET W == TLCEval(World(b, q, p[i])) z == Col(W[1], 3) IN z \o Cr(z, Vm(e, W[2]))] IN
    [n \in 1..(6 * Len(p)) |-> cs[((n - 1) % Len(p)) + 1][((n - 1) \div Len(p)) + 1]]
\* link inertias: robot's own (seed 0) are not exact decimals of moderate size; the checks give the links integer inertias
Dat(seed, j) == ((seed * 37 + j * 29 + j * j * 5 + (seed * j * 11)) % 7) - 3
Inr(seed, l) ==    \* [m, c, I (about the link frame's origin)]
    LET m == (Dat(seed, 10 * l) % 3) + 1
        c == <<Dat(seed, 10 * l + 1) \div 2, Dat(seed, 10 * l + 2) \div 2, Dat(seed, 10 * l + 3) \div 2>>
        o == <<Dat(seed, 10 * l + 4) \div 3, Dat(seed, 10 * l + 5) \div 3, Dat(seed, 10 * l + 6) \div 3>>
        d == <<(Dat(seed, 10 * l + 7) % 3) + 3, (Dat(seed, 10 * l + 8) % 3) + 3, (Dat(seed, 10 * l + 9) % 3) + 3>>
        cc == c[1] * c[1] + c[2] * c[2] + c[3] * c[3] IN
    [m |-> m, c |-> Red(c),
     I |-> Red(<<d[1] + m * (cc - c[1] * c[1]), o[1] - m * c[1] * c[2], o[2] - m * c[1] * c[3],
                 o[1] - m * c[1] * c[2], d[2] + m * (cc - c[2] * c[2]), o[3] - m * c[2] * c[3],
                 o[2] - m * c[1] * c[3], o[3] - m * c[2] * c[3], d[3] + m * (cc - c[3] * c[3])>>)]
Ext(seed, l) == IF seed = 0 THEN <<Z3, Z3>> ELSE      \* <<moment, force>> on link l in link coordinates
    <<Red(<<Dat(seed, 6 * l + 101), Dat(seed, 6 * l + 102), Dat(seed, 6 * l + 103)>>), Red(<<Dat(seed, 6 * l + 104), Dat(seed, 6 * l + 105), Dat(seed, 6 * l + 106)>>)>>
\* Newton-Euler: base [w, al, a]: angular velocity, angular acceleration, acceleration of the origin minus gravity, in base coordinates
ZC == <<0, 0, 1>>
Fwd(b, q, qd, qdd, base) ==
    LET RECURSIVE K(_)
        K(n) == IF n = 0 THEN <<base>> ELSE
            LET ks == K(n - 1)  p == ks[b.par[n] + 1]  T == Rel(b, q, n)
                wp == Tv(T[1], p.w)
                w == V3(wp, Vs(qd[n], ZC))
                al == V3(V3(Tv(T[1], p.al), Vs(qdd[n], ZC)), Vs(qd[n], Cr(wp, ZC)))
                a == Tv(T[1], V3(p.a, V3(Cr(p.al, T[2]), Cr(p.w, Cr(p.w, T[2])))))
            IN Append(ks, TLCEval([w |-> w, al |-> al, a |-> a])) IN
    K(b.nj)
Wrench(i, k, e) ==    \* <<moment about the origin, force>> needed by a body moving like k with external wrench e
    LET F == Vs(i.m, V3(k.a, V3(Cr(k.al, i.c), Cr(k.w, Cr(k.w, i.c)))))
        N == V3(V3(Mv(i.I, k.al), Cr(k.w, Mv(i.I, k.w))), Vs(i.m, Cr(i.c, k.a))) IN
    <<Vm(N, e[1]), Vm(F, e[2])>>
\* all link wrenches, accumulated from the leaves: sequence over links 0..nj
Back(b, q, ks, ins, ext) ==
    LET own == TLCEval([l \in 1..(b.nj + 1) |-> Wrench(Inr(ins, l - 1), ks[l], Ext(ext, l - 1))])
        RECURSIVE Acc(_, _)
        Acc(w, n) == IF n = 0 THEN w ELSE
            LET T == Rel(b, q, n)  f == w[n + 1]
                g == <<V3(Mv(T[1], f[1]), Cr(T[2], Mv(T[1], f[2]))), Mv(T[1], f[2])>>
                p == b.par[n] + 1 IN
            Acc(TLCEval([w EXCEPT ![p] = <<V3(@[1], g[1]), V3(@[2], g[2])>>]), n - 1) IN
    Acc(own, b.nj)
Rnea(b, q, qd, qdd, base, ins, ext) ==    \* <<base moment, base force>>, joint forces
    LET w == TLCEval(Back(b, q, TLCEval(Fwd(b, q, Red(qd), Red(qdd), base)), ins, ext)) IN
    [base |-> w[1][1] \o w[1][2], tau |-> [n \in 1..b.nj |-> w[n + 1][1][3]]]
Fixed == [w |-> Z3, al |-> Z3, a |-> <<0, 0, G981>>]
Still == [w |-> Z3, al |-> Z3, a |-> Z3]
\* floating base: spatial velocity v, spatial acceleration acc, gravity g (sequences of 6 integers, angular first)
Float(v, acc, g) == LET w == Red(SubSeq(v, 1, 3)) IN
    [w |-> w, al |-> Red(SubSeq(acc, 1, 3)), a |-> Vm(V3(Red(SubSeq(acc, 4, 6)), Cr(w, Red(SubSeq(v, 4, 6)))), Red(SubSeq(g, 4, 6)))]
Z6 == <<0, 0, 0, 0, 0, 0>>
Zn(b) == [i \in 1..b.nj |-> 0]
Unit(n, i) == [k \in 1..n |-> IF k = i THEN 1 ELSE 0]
\* joint-space inertia matrix, column by column
McolF(b, q, ins, i) == Rnea(b, q, Zn(b), Unit(b.nj, i), Still, ins, 0).tau
McolB(b, q, ins, i) == LET r == IF i <= 6 THEN Rnea(b, q, Zn(b), Zn(b), Float(Z6, Unit(6, i), Z6), ins, 0)
                                ELSE Rnea(b, q, Zn(b), Unit(b.nj, i - 6), Still, ins, 0) IN r.base \o r.tau
Mass(b, q, ins) == LET n == b.nj + 6 * b.fl
                       cs == TLCEval([i \in 1..n |-> IF b.fl = 1 THEN McolB(b, q, ins, i) ELSE McolF(b, q, ins, i)]) IN
    [k \in 1..(n * n) |-> cs[((k - 1) % n) + 1][((k - 1) \div n) + 1]]
\* centre of mass times total mass
Com(b, q, ins) == LET RECURSIVE Sm(_)
                      Sm(l) == IF l > b.nj THEN Z3 ELSE
                        LET i == Inr(ins, l)  W == World(b, q, l) IN V3(Vs(i.m, V3(Mv(W[1], i.c), W[2])), Sm(l + 1)) IN
    Sm(IF b.fl = 1 THEN 0 ELSE 1)
-----------------------------------------------------------------------------
(* The quadrotor: state position, angles (ph, th, ps), velocity, angle rates; control thrust and moments.  R = Rx(ph) Ry(th) Rz(ps). *)
MQ == TLCEval(Div(546, 1000))
TX == TLCEval(Div(232, 100000))
TZ == TLCEval(Div(3, 10000))
\* dual numbers <<value, derivative>>
Da(x, y) == <<(x[1] + y[1]) % P, (x[2] + y[2]) % P>>
Ds(x, y) == <<(x[1] - y[1]) % P, (x[2] - y[2]) % P>>
Dm(x, y) == <<(x[1] * y[1]) % P, (((x[1] * y[2]) % P) + ((x[2] * y[1]) % P)) % P>>
Dk(k, x) == <<(k * x[1]) % P, (k * x[2]) % P>>
Dd(x, y) == LET i == Div(1, y[1]) v == Mul(x[1], i) IN <<v, Mul(Sub(x[2], Mul(v, y[2])), i)>>
Dn(x) == Ds(<<0, 0>>, x)
\* ang: three angle codes; xs: twelve integers (angles ignored); us: four integers in tenths/thousandths; d: index of the direction (1..12 state, 13..16 control, 0 none)
Quad(ang, xs, us, d) ==
    LET E(i) == IF d = i THEN 1 ELSE 0
        co == [i \in 1..3 |-> <<C(ang[i]), IF d = 3 + i THEN (0 - S(ang[i])) % P ELSE 0>>]
        si == [i \in 1..3 |-> <<S(ang[i]), IF d = 3 + i THEN C(ang[i]) ELSE 0>>]
        v(i) == <<xs[i] % P, E(i)>>
        u(i) == <<us[i], E(12 + i)>>
        dph == v(10)  dth == v(11)  dps == v(12)
        \* body rates
        w1 == Da(Dm(Dm(co[2], co[3]), dph), Dm(si[3], dth))
        w2 == Ds(Dm(co[3], dth), Dm(Dm(co[2], si[3]), dph))
        w3 == Da(Dm(si[2], dph), dps)
        \* Euler's equations, inertia diag(TX, TX, TZ)
        I1 == Dk(Div(1, TX), Ds(u(2), Dk(Sub(TZ, TX), Dm(w2, w3))))
        I2 == Dk(Div(1, TX), Ds(u(3), Dk(Sub(TX, TZ), Dm(w3, w1))))
        I3 == Dk(Div(1, TZ), u(4))
        \* time derivatives of the rate map applied to the rates
        e1 == Da(Dm(Ds(Dn(Dm(Dm(si[2], dth), co[3])), Dm(Dm(co[2], si[3]), dps)), dph), Dm(Dm(co[3], dps), dth))
        e2 == Ds(Dm(Ds(Dm(Dm(si[2], dth), si[3]), Dm(Dm(co[2], co[3]), dps)), dph), Dm(Dm(si[3], dps), dth))
        e3 == Dm(Dm(co[2], dth), dph)
        r1 == Ds(I1, e1)  r2 == Ds(I2, e2)  r3 == Ds(I3, e3)
        aph == Dd(Ds(Dm(co[3], r1), Dm(si[3], r2)), co[2])
        ath == Da(Dm(si[3], r1), Dm(co[3], r2))
        aps == Ds(r3, Dm(si[2], aph))
        f == Dk(Div(1, MQ), u(1)) IN
    <<v(7), v(8), v(9), dph, dth, dps,
      Dm(f, si[2]), Dn(Dm(f, Dm(co[2], si[1]))), Ds(Dm(f, Dm(co[2], co[1])), <<G981, 0>>), aph, ath, aps>>
QuadVal(ang, xs, us) == LET r == TLCEval(Quad(ang, xs, us, 0)) IN [i \in 1..12 |-> r[i][1]]
QuadJac(ang, xs, us, d0, n) == LET r == TLCEval([d \in 1..n |-> Quad(ang, xs, us, d0 + d)]) IN
    [k \in 1..(12 * n) |-> r[((k - 1) % n) + 1][((k - 1) \div n) + 1][2]]
-----------------------------------------------------------------------------
(* Spatial algebra on 6x6 matrices (row major, angular part first) and the inertia object.                                          *)
M6(A, B) == [k \in 1..36 |-> LET i == (k - 1) \div 6 j == (k - 1) % 6 IN
    (((A[6 * i + 1] * B[j + 1]) % P) + ((A[6 * i + 2] * B[6 + j + 1]) % P) + ((A[6 * i + 3] * B[12 + j + 1]) % P)
     + ((A[6 * i + 4] * B[18 + j + 1]) % P) + ((A[6 * i + 5] * B[24 + j + 1]) % P) + ((A[6 * i + 6] * B[30 + j + 1]) % P)) % P]
T6(A) == [k \in 1..36 |-> A[6 * ((k - 1) % 6) + ((k - 1) \div 6) + 1]]
Mv6(A, v) == [i \in 1..6 |-> (((A[6 * i - 5] * v[1]) % P) + ((A[6 * i - 4] * v[2]) % P) + ((A[6 * i - 3] * v[3]) % P)
                            + ((A[6 * i - 2] * v[4]) % P) + ((A[6 * i - 1] * v[5]) % P) + ((A[6 * i] * v[6]) % P)) % P]
CrM(v) == LET w == Skew(SubSeq(v, 1, 3)) IN Six(w, Z9, Skew(SubSeq(v, 4, 6)), w)
CrF(v) == LET w == Skew(SubSeq(v, 1, 3)) IN Six(w, Skew(SubSeq(v, 4, 6)), Z9, w)
Diag3(m) == <<m, 0, 0, 0, m, 0, 0, 0, m>>
Neg9(a) == [i \in 1..9 |-> (0 - a[i]) % P]
In6(o) == LET w == Skew(o.mc) IN Six(o.I, w, Neg9(w), Diag3(o.m))          \* o: mass, mass times centre, tensor
Sym3(a, k) == Red(<<a[k], a[k + 1], a[k + 2], a[k + 1], a[k + 3], a[k + 4], a[k + 2], a[k + 4], a[k + 5]>>)
ImOf(a, k) == [m |-> a[k], mc |-> Red(<<a[k] * a[k + 1], a[k] * a[k + 2], a[k] * a[k + 3]>>), I |-> Sym3(a, k + 4)]   \* m, c, six moments
Ad9(a, b_) == [i \in 1..9 |-> (a[i] + b_[i]) % P]
Sc9(k, a) == [i \in 1..9 |-> Mul(k, a[i])]
SkSq(v) == LET w == Skew(v) IN Mm(w, Tr(w))
ImMass(o, m) == LET r == Div(m, o.m) IN [m |-> m, mc |-> Vs(r, o.mc), I |-> Sc9(r, o.I)]
ImCom(o, c) == LET n == Vs(o.m, c) IN [m |-> o.m, mc |-> n, I |-> Ad9(o.I, Sc9(Div(1, o.m), Ad9(SkSq(n), Neg9(SkSq(o.mc)))))]
ImAdd(o, q) == [m |-> (o.m + q.m) % P, mc |-> V3(o.mc, q.mc), I |-> Ad9(o.I, q.I)]
ImRep(o) == In6(o) \o <<o.m>> \o Vs(Div(1, o.m), o.mc) \o o.I
Rx(c) == <<1, 0, 0, 0, C(c), (0 - S(c)) % P, 0, S(c), C(c)>>
Ry(c) == <<C(c), 0, S(c), 0, 1, 0, (0 - S(c)) % P, 0, C(c)>>
\* a pose from three angle codes and a translation: orientation Rx Ry Rz
Pose(a, k) == <<Mm(Mm(Rx(a[k]), Ry(a[k + 1])), Rz(a[k + 2])), Red(<<a[k + 3], a[k + 4], a[k + 5]>>)>>
\* symmetric 6x6 matrix with zero row and column z (0: none)
SymS(seed, z) == [k \in 1..36 |-> LET i == ((k - 1) \div 6) + 1 j == ((k - 1) % 6) + 1 lo == IF i < j THEN i ELSE j hi == IF i < j THEN j ELSE i IN
                  IF i = z \/ j = z THEN 0 ELSE Dat(seed, 7 * lo + hi) % P]
Outer(u, d) == [k \in 1..36 |-> Div(Mul(u[((k - 1) \div 6) + 1], u[((k - 1) % 6) + 1]), d)]
Alg(s, e) == LET a == e.a IN
    CASE e.op = "vxIv" -> LET v == Red(SubSeq(a, 1, 6)) IN Mv6(CrF(v), Mv6(In6(ImOf(a, 7)), v))
      [] e.op = "vxIz" -> LET v == <<0, 0, a[1] % P, 0, 0, 0>> IN Mv6(CrF(v), Mv6(In6(ImOf(a, 2)), v))
      [] e.op = "mcx" -> CrM(Red(a)) [] e.op = "fcx" -> CrF(Red(a))
      [] e.op = "ti" -> LET X == TLCEval(Frc(Inv(Pose(a, 1)))) IN M6(M6(X, In6(ImOf(a, 7))), T6(X))
      [] e.op = "ctr" -> LET X == TLCEval(Mot(Pose(a, 1))) IN M6(M6(T6(X), SymS(a[7], 3)), X)
      [] e.op = "ctp" -> LET X == TLCEval(Mot(Pose(a, 1))) IN M6(M6(T6(X), SymS(a[7], 6)), X)
      \* IA - U U^T / D where U is column z of IA, D its diagonal entry: row and column z vanish
      [] e.op \in {"Iar", "Iap"} ->
            LET z == IF e.op = "Iar" THEN 3 ELSE 6  B == TLCEval([SymS(a[1], 0) EXCEPT ![7 * z - 6] = a[2]])
                U == [i \in 1..6 |-> B[6 * i - 6 + z]]  O == TLCEval(Outer(U, a[2])) IN
            [k \in 1..36 |-> (B[k] - O[k]) % P]
      [] e.op = "rot" -> Tr(Pose(a \o <<0, 0, 0>>, 1)[1])
      [] e.op = "tra" -> LET T == Pose(a, 1) IN V3(Mv(T[1], Red(SubSeq(a, 7, 9))), T[2]) \o T[2] \o Col(T[1], 3) \o T[1]
      [] e.op = "skw" -> Skew(Red(a))
      [] e.op = "bit" -> Red(<<a[1], 0 - a[4], 0 - a[5], 0 - a[4], a[2], 0 - a[6], 0 - a[5], 0 - a[6], a[3]>>)
      [] OTHER -> ImRep(s.im)
ImOps == {"imf", "imc", "imm", "imo", "imr", "ima", "ims"}
AlgOps == {"vxIv", "vxIz", "mcx", "fcx", "ti", "ctr", "ctp", "Iar", "Iap", "rot", "tra", "skw", "bit"}
ImNxt(s, e) == LET a == e.a IN
    CASE e.op \in {"imf", "imc", "ims"} -> ImOf(a, 1)
      [] e.op = "imm" -> ImMass(s.im, a[1])
      [] e.op = "imo" -> ImCom(s.im, Red(a))
      [] e.op = "imr" -> [s.im EXCEPT !.I = Sym3(a, 1)]
      [] OTHER -> ImAdd(s.im, ImOf(a, 1))
=============================================================================
