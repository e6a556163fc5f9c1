-------------------------------- MODULE LqrMC --------------------------------
(* The certificates of Lqr mean what they should: for every member of a catalogue, P is the value of the optimal policy.
   State: a problem with its certificate and a state x that moves with the closed loop; cost accumulates.               *)
EXTENDS Lqr, Json
CONSTANTS Emit, Wide
VARIABLES pr, x, x0, j, n
vars == <<pr, x, x0, j, n>>
h(a, b, c, d) == << <<32 * a, 32 * b>>, <<32 * c, 32 * d>> >>
Fs == {h(1, 0, 0, -1), h(0, 1, 0, 0), h(1, 1, -1, 0), h(0, 1, -1, 1)} \cup IF Wide THEN {h(1, 1, 0, 1), h(0, 0, 0, 0), h(-1, 0, 1, 1), h(0, -1, 1, 0), h(1, -1, 0, -1)} ELSE {}
Cs == {h(-2, 2, -2, -2), h(-2, 0, 2, -4), h(-4, 2, 0, -2)} \cup IF Wide THEN {h(-2, 0, 0, -2), h(0, 2, -4, -2), h(-6, 0, 2, -2)} ELSE {}
Ps == {h(4, 0, 0, 8), h(8, 4, 4, 8), h(2, 0, 0, 2)} \cup IF Wide THEN {h(4, 2, 2, 6), h(8, -4, -4, 6)} ELSE {}
Bs == {h(2, 0, 0, 2), h(0, 0, 2, 2)} \cup IF Wide THEN {h(2, -2, 0, 0), h(2, 0, 2, 2), h(0, 0, 0, 0)} ELSE {}
Rs == {h(4, 0, 0, 8), h(4, 4, 4, 8)} \cup IF Wide THEN {h(16, 0, 0, 16), h(16, -8, -8, 8)} ELSE {}
Inv2(R, Y) == SolveM(R, Y)
\* discrete time: closed loop F, value P; continuous time: closed loop F, value P
MkD(F, P, B, R) == LET K == Inv2(R, Neg(MM(MM(T(B), P), F))) A == MS(F, MM(B, K)) IN
    [kind |-> "dare", A |-> A, B |-> B, P |-> P, R |-> R, K |-> K, F |-> F, Q |-> MS(P, MM(MM(T(A), P), F))]
MkC(F, P, B, R) == LET K == Inv2(R, MM(T(B), P)) A == MA(F, MM(B, K)) IN
    [kind |-> "care", A |-> A, B |-> B, P |-> P, R |-> R, K |-> K, F |-> F, Q |-> MS(MM(MM(P, B), K), MA(MM(T(A), P), MM(P, A)))]
PSD(A) == A[1][1] >= 0 /\ A[2][2] >= 0 /\ Det2(A) >= 0
PDish(A) == A[1][1] > 0 /\ Det2(A) > 0
Flat4(p) == Flat(p.Q) \o Flat(p.R) \o Flat(p.A) \o Flat(p.B) \o Flat(p.P) \o Flat(p.K)
Script(p) == IF p.kind = "dare" THEN [op |-> "dare", a |-> <<0, 1000>> \o Flat4(p) \o <<0, 0, 0, 0>>] ELSE [op |-> "care", a |-> <<1, 0, 0>> \o Flat4(p)]
X0 == {<<64, 0>>, <<0, 64>>, <<64, -64>>}
Init == \E P \in Ps, B \in Bs, R \in Rs : \E q \in {MkD(F, P, B, R) : F \in Fs} \cup {MkC(F, P, B, R) : F \in Cs} :
    /\ PDish(q.Q)
    /\ pr = q /\ x0 \in X0 /\ x = x0 /\ j = 0 /\ n = 0
    /\ (Emit => PrintT("SCRIPT " \o ToJson(<<Script(q)>>)))
Uopt == MV(pr.K, x)
Next == /\ pr.kind = "dare" /\ n < 2 /\ ~Emit
        /\ x' = MV(pr.F, x) /\ j' = j + Form(x, pr.Q, x) + Form(Uopt, pr.R, Uopt) /\ n' = n + 1 /\ UNCHANGED <<pr, x0>>
Certified == IF pr.kind = "dare" THEN DareCert(pr.Q, pr.R, pr.A, pr.B, pr.P, pr.K) ELSE CareCert(pr.Q, pr.R, pr.A, pr.B, pr.P, pr.K)
\* the value of the initial state is the accumulated cost plus the value of the current state
Value == Form(x0, pr.P, x0) = j + Form(x, pr.P, x)
\* no other control does better (Bellman / Hamilton-Jacobi-Bellman inequality)
Us == {<<a, b>> : a \in {-128, -64, 0, 64, 96}, b \in {-128, -64, 0, 64}}
Best == n = 0 =>
    IF pr.kind = "dare"
    THEN \A u \in Us : LET y == VA(MV(pr.A, x), MV(pr.B, u)) IN Form(x, pr.Q, x) + Form(u, pr.R, u) + Form(y, pr.P, y) >= Form(x, pr.P, x)
    ELSE \A u \in Us : Form(x, pr.Q, x) + Form(u, pr.R, u) + 2 * Form(x, pr.P, VA(MV(pr.A, x), MV(pr.B, u))) >= 0
\* the value decreases along the closed loop
Decrease == [][Form(x', pr.P, x') < Form(x, pr.P, x) \/ x = <<0, 0>>]_vars
=============================================================================
