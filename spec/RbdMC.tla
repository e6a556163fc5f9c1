------------------------------- MODULE RbdMC -------------------------------
(* The laws of mechanics on the specification Rbd itself, for every robot at a walk through joint configurations (seed sd):
   transforms are rigid, invert each other and conserve power; the inertia matrix is symmetric; the equation of motion is
   linear in the acceleration with the inertia matrix; a force at a frame acts through the Jacobian; the inertia object. *)
EXTENDS Rbd
CONSTANT Depth
VARIABLES bt, sd
vars == <<bt, sd>>
Q_(B, z) == [i \in 1..B.nj |-> (z * 7 + i * 5 + z * i) % 12]
Qd_(B, z) == [i \in 1..B.nj |-> Dat(z, i)]
Qdd_(B, z) == [i \in 1..B.nj |-> Dat(z + 1, 3 * i)]
N_(B, z) == B.nj + 6 * B.fl
Acc6_(B, z) == [i \in 1..6 |-> Dat(z + 2, i)]
Vel6_(B, z) == [i \in 1..6 |-> Dat(z + 3, 2 * i)]
Base(B, v, a) == IF B.fl = 1 THEN Float(v, a, Z6) ELSE Still
All(B, r) == IF B.fl = 1 THEN r.base \o r.tau ELSE r.tau
Init == bt \in 1..5 /\ sd = 0
Next == sd < Depth /\ sd' = sd + 1 /\ UNCHANGED bt
Rigid_(B, z) == \A k \in {((z * 11) % Len(B.X)) + 1, ((z * 5) % Len(B.X)) + 1} : LET T == TLCEval(Xf(B, Q_(B, z), k)) IN
    /\ Mm(T[1], Tr(T[1])) = Id3
    /\ Cr(Col(T[1], 1), Col(T[1], 2)) = Col(T[1], 3)
    /\ Comp(T, Inv(T)) = <<Id3, Z3>> /\ Comp(Inv(T), T) = <<Id3, Z3>>
    /\ M6(TLCEval(Mot(T)), TLCEval(Mot(Inv(T)))) = Mot(<<Id3, Z3>>)
    \* power is the same in both frames: motion and force transforms are inverse transposes
    /\ M6(T6(TLCEval(Mot(T))), TLCEval(Frc(T))) = Mot(<<Id3, Z3>>)
Motion_(B, z) == LET M == TLCEval(Mass(B, Q_(B, z), z + 1))
              acc == IF B.fl = 1 THEN Red(Acc6_(B, z)) \o Red(Qdd_(B, z)) ELSE Red(Qdd_(B, z))
              Ma == TLCEval([i \in 1..N_(B, z) |-> LET s[j \in 0..N_(B, z)] == IF j = 0 THEN 0 ELSE (s[j - 1] + ((M[N_(B, z) * (i - 1) + j] * acc[j]) % P)) % P IN s[N_(B, z)]])
              full == TLCEval(All(B, Rnea(B, Q_(B, z), Qd_(B, z), Qdd_(B, z), Base(B, Vel6_(B, z), Acc6_(B, z)), z + 1, 0)))
              bias == TLCEval(All(B, Rnea(B, Q_(B, z), Qd_(B, z), Zn(B), Base(B, Vel6_(B, z), Z6), z + 1, 0))) IN
    /\ \A i, j \in 1..N_(B, z) : M[N_(B, z) * (i - 1) + j] = M[N_(B, z) * (j - 1) + i]
    /\ \A i \in 1..N_(B, z) : full[i] = (Ma[i] + bias[i]) % P
\* wrenches on the links change each joint force by minus their total moment about the joint's axis (virtual work)
Virtual_(B, z) == LET q == TLCEval(Q_(B, z))  qd == TLCEval(Qd_(B, z))  qdd == TLCEval(Qdd_(B, z))
        W == TLCEval([l \in 1..B.nj |-> World(B, q, l)])
        t1 == TLCEval(Rnea(B, q, qd, qdd, Base(B, Vel6_(B, z), Acc6_(B, z)), z + 1, z + 5).tau)
        t0 == TLCEval(Rnea(B, q, qd, qdd, Base(B, Vel6_(B, z), Acc6_(B, z)), z + 1, 0).tau)
        mom(i, l) == LET w == Ext(z + 5, l) a == Col(W[i][1], 3) IN
            (D3(a, Mv(W[l][1], w[1])) + D3(Cr(a, Vm(W[l][2], W[i][2])), Mv(W[l][1], w[2]))) % P
        on(i, l) == \E k \in DOMAIN Path(B, l) : Path(B, l)[k] = i
        total(i) == LET f[l \in 0..B.nj] == IF l = 0 THEN 0 ELSE (f[l - 1] + (IF on(i, l) THEN mom(i, l) ELSE 0)) % P IN f[B.nj] IN
    \A i \in 1..B.nj : (t0[i] - t1[i]) % P = total(i)
O1_(B, z) == ImOf(<<2, 1, -1, Dat(z, 1), 5, 1, 0, 6, -1, 7>>, 1)
Object_(B, z) == LET o == TLCEval(ImCom(O1_(B, z), Red(<<Dat(z, 2), 2, -1>>))) IN
    /\ ImCom(o, Vs(Div(1, O1_(B, z).m), O1_(B, z).mc)) = O1_(B, z)
    /\ ImMass(ImMass(o, 5), O1_(B, z).m) = o
    /\ ImAdd(o, ImMass(o, 2 * o.m)) = ImMass(o, 3 * o.m)
\* parallel axes: moving the frame to the new centre and back is a congruence with the force transform
Moved_(B, z) == LET T == TLCEval(Pose(<<z % 12, (z + 5) % 12, (z * 7) % 12, 1, -2, Dat(z, 3)>>, 1))
             X == TLCEval(Frc(Inv(T)))  Y == TLCEval(Frc(T))  I == In6(O1_(B, z)) IN
    M6(M6(Y, TLCEval(M6(M6(X, I), T6(X)))), T6(Y)) = I
Hover_(B, z) == QuadVal(<<0, 0, z % 12>>, <<1, 2, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<Mul(MQ, G981), 0, 0, 0>>) = [i \in 1..12 |-> 0]
Rigid == \A s \in {sd}, b \in {Bot[bt]} : Rigid_(b, s)
Motion == \A s \in {sd}, b \in {Bot[bt]} : Motion_(b, s)
Virtual == \A s \in {sd}, b \in {Bot[bt]} : Virtual_(b, s)
Object == \A s \in {sd}, b \in {Bot[bt]} : Object_(b, s)
Moved == \A s \in {sd}, b \in {Bot[bt]} : Moved_(b, s)
Hover == \A s \in {sd}, b \in {Bot[bt]} : Hover_(b, s)
=============================================================================
