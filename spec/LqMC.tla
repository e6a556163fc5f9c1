-------------------------------- MODULE LqMC --------------------------------
(* The backward recursion of Lq gives the optimum: problems are built backwards stage by stage (cost-to-go, gain numerator
   and Hessian are chosen from a catalogue, the stage data follow), and for each the recursion's trajectory is checked to
   satisfy the first-order conditions and not to be improved by any perturbation of the controls.                      *)
EXTENDS Lq, Json
CONSTANTS Emit, Depth, Wide
VARIABLES p, S, hist
vars == <<p, S, hist>>
m(a, b, c, d) == << <<64 * a, 64 * b>>, <<64 * c, 64 * d>> >>
As == IF Wide THEN {m(1, 1, 0, 1), m(0, 1, -1, 0), m(1, 0, 0, 0)} ELSE {m(1, 1, 0, 1), m(0, 1, -1, 1)}
Bs == IF Wide THEN {m(1, 0, 0, 1), m(0, 0, 1, 1), m(0, 0, 0, 0)} ELSE {m(1, 0, 1, 1), m(0, 0, 1, -1)}
Gs == {m(0, 1, 1, 0), m(1, -1, 0, 1)}
Hs == IF Wide THEN {m(1, 0, 0, 2), m(2, 1, 1, 1), m(4, 2, 2, 2)} ELSE {m(1, 0, 0, 2), m(2, -1, -1, 1)}
Ss == {m(1, 0, 0, 1), m(2, 1, 1, 1)}
Vs == IF Wide THEN {<<0, 0>>, <<64, -64>>} ELSE {<<64, -64>>}
StageFor(A, B, G, H, Sk, b, q, r) ==
    LET BT == T(B)
        L == SolveM(H, [i \in 1..2 |-> [j \in 1..2 |-> -G[i][j]]])
    IN TLCEval([A |-> A, B |-> B, b |-> b, P |-> MS(G, MM(MM(BT, S), A)), R |-> MS(H, MM(MM(BT, S), B)),
        Q |-> MS(MS(Sk, MM(MM(T(A), S), A)), MM(T(L), G)), q |-> q, r |-> r])
Data(z) == Flat(z.A) \o Flat(z.B) \o z.b \o Flat(z.P) \o Flat(z.Q) \o Flat(z.R) \o z.q \o z.r
Script(pp, how, sw, fx) == [op |-> "lq", a |-> <<how, sw, fx, 0, 1, Len(pp.st)>> \o Cat([k \in 1..Len(pp.st) |-> Data(pp.st[k])], Len(pp.st)) \o Flat(pp.QN) \o pp.qN]
Init == \E QN \in Ss, qN \in Vs : p = [st |-> <<>>, QN |-> QN, qN |-> qN] /\ S = QN /\ hist = <<>>
Next ==
    /\ Len(p.st) < Depth
    /\ \E A \in As, B \in Bs, G \in Gs, H \in Hs, Sk \in Ss, b \in Vs, q \in Vs :
         LET z == StageFor(A, B, G, H, Sk, b, q, <<64, 0>>) IN
         /\ p' = [p EXCEPT !.st = <<z>> \o @]
         /\ S' = Sk
         /\ hist' = IF Emit THEN <<Script(p', Len(p.st) % 4, (Sk[1][1] \div 64) % 2, (H[1][2] \div 64) % 2)>> ELSE <<>>
         /\ (Emit => PrintT("SCRIPT " \o ToJson(hist')))
View == <<p, S>>
Solu == TLCEval(Sol(p, 1, 0, 0))
\* the recursion reproduces the chosen cost-to-go
CostToGo == Solu.S = S
\* first-order conditions with costates lam_N = QN x + qN, lam_k = Q x + P'u + q + A'lam
RECURSIVE Lam(_, _)
Lam(tr, k) == IF k > Len(p.st) THEN VA(MV(p.QN, tr.x[k]), p.qN)
              ELSE LET z == p.st[k] IN VA(VA(MV(z.Q, tr.x[k]), MV(T(z.P), tr.u[k])), VA(z.q, MV(T(z.A), Lam(tr, k + 1))))
FirstOrder == \A tr \in {Roll(p, Solu, 1, <<0, 0>>)} :
    \A k \in 1..Len(p.st) : LET z == p.st[k] IN
        VA(VA(MV(z.R, tr.u[k]), MV(z.P, tr.x[k])), VA(z.r, MV(T(z.B), Lam(tr, k + 1)))) = <<0, 0>>
\* twice the cost, units 1/64
RECURSIVE J2(_, _, _)
J2(us, k, x) == IF k > Len(p.st) THEN Form(x, p.QN, x) + 2 * (Dot(p.qN, x, 2) \div U)
    ELSE LET z == p.st[k] u == us[k] IN
         Form(x, z.Q, x) + Form(u, z.R, u) + 2 * Form(u, z.P, x) + 2 * (Dot(z.q, x, 2) \div U) + 2 * (Dot(z.r, u, 2) \div U)
         + One({J2(us, k + 1, y) : y \in {VA(VA(MV(z.A, x), MV(z.B, u)), z.b)}})
Dirs == {<<0, 0>>, <<64, 0>>, <<0, -64>>, <<-64, 64>>}
Optimal == \A tr \in {Roll(p, Solu, 1, <<0, 0>>)} : \A j \in {J2(tr.u, 1, <<0, 0>>)} :
    \A d \in [1..Len(p.st) -> Dirs] : One({J2(us, 1, <<0, 0>>) : us \in {[k \in 1..Len(p.st) |-> VA(tr.u[k], d[k])]}}) >= j
=============================================================================
