------------------------------ MODULE RbdSysMC ------------------------------
(* Laws between the parts of the specification RbdSys, for every robot along a walk through configurations (seed sd): the constraint
   Jacobian gives the velocity and its derivative the acceleration of an end-effector; a force at an end-effector has the power of the
   wrench it becomes on the link; the rates of the angles make up the angular velocity; poses form a group. *)
EXTENDS RbdSys
CONSTANT Depth
VARIABLES bt, sd
vars == <<bt, sd>>
Q_(n, z) == [i \in 1..n |-> (z * 7 + i * 5 + z * i) % 12]
Qd_(n, z) == [i \in 1..n |-> Dat(z, i)]
W3(z, k) == Red(<<Dat(z, k), Dat(z, k + 1), Dat(z, k + 2)>>)
Init == bt \in 1..5 /\ sd = 0
Next == sd < Depth /\ sd' = sd + 1 /\ UNCHANGED bt
Dot(a, b_) == LET f[i \in 0..Len(a)] == IF i = 0 THEN 0 ELSE (f[i - 1] + ((a[i] * b_[i]) % P)) % P IN f[Len(a)]
EndEff_(bi, z) ==
    LET b == Bot[bi]  n == b.nj  q == TLCEval(Q_(n, z))  qd == TLCEval(Qd_(n, z))  ne == Len(Ees[bi])
        w == W3(z + 3, 1)  v == W3(z + 4, 2)  f == W3(z + 5, 3)
        J == TLCEval(ConJ(bi, q, 2 ^ ne - 1))  D == TLCEval(ConD(bi, q, qd, 2 ^ ne - 1))
        Ks == TLCEval(Fwd(b, q, Red(qd), Zn(b), Still))
        row(M, e, r) == SubSeq(M, (3 * (e - 1) + r - 1) * (6 + n) + 1, (3 * (e - 1) + r) * (6 + n))
        all == TLCEval(w \o v \o Red(qd))  still == TLCEval(Z6 \o Red(qd)) IN
    \A e \in 1..ne :
        LET vel == TLCEval(BaseVel(bi, q, qd, w, v, e))  rel == TLCEval(RelVel(bi, q, qd, e))  l == LinkOf(bi, e)
            fr == b.fr[Ees[bi][e]]  off == Len7(fr[3])  k == Ks[l + 1]  W == World(b, q, l)
            acc == Mv(W[1], V3(k.a, V3(Cr(k.al, off), Cr(k.w, Cr(k.w, off)))))
            wr == TLCEval(OnLink(b, q, l, EeT(bi, q, e)[2], Z3, f))  lv == TLCEval(LinkVel(b, q, qd, l)) IN
        \A r \in 1..3 :
            /\ Dot(row(J, e, r), all) = vel[r]
            /\ Dot(row(D, e, r), still) = acc[r]
            /\ D3(f, rel) = (D3(SubSeq(wr, 1, 3), Tv(W[1], lv[1])) + D3(SubSeq(wr, 4, 6), Tv(W[1], lv[2]))) % P
Angles_(z) ==
    LET c == <<z % 12, <<0, 2, 4, 5, 6, 7, 8, 9, 10, 11>>[(z % 10) + 1], (z * 5) % 12>>  w == W3(z, 4)  Ro == Pose(c \o Z3, 1)[1]
        r == TLCEval(Rates(c, w, 0))
        part(i) == Vs(r[i][1], Tv(Ro, Axis(c, i)))
        lin(k) == LET g[i \in 0..3] == IF i = 0 THEN 0 ELSE (g[i - 1] + Mul(Rates(c, w, 3 + i)[k][2], w[i])) % P IN g[3] IN
    /\ V3(V3(part(1), part(2)), part(3)) = w
    /\ \A k \in 1..3 : lin(k) = r[k][1]
Group_(z) ==
    LET A == TLCEval(Pose(<<z % 12, (z + 5) % 12, (z * 7) % 12, 1, 0 - 2, Dat(z, 3)>>, 1))  B_ == TLCEval(Pose(<<(z * 5) % 12, z % 12, 3, 2, Dat(z, 5), 1>>, 1)) IN
    /\ Comp(B_, Comp(Inv(B_), A)) = A
    /\ Comp(Inv(A), A) = <<Id3, Z3>>
EndEff == \A z \in {sd}, bi \in {bt} : EndEff_(bi, z)
Angles == \A z \in {sd} : Angles_(z)
Group == \A z \in {sd} : Group_(z)
=============================================================================
