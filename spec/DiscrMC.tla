------------------------------- MODULE DiscrMC -------------------------------
(* Bounded model of Discr: a step's sensitivity is the difference of its flows (exactly, on plants linear in state and
   input), K sub-steps of one interval compose, and a clone keeps type, plant and grid. *)
EXTENDS Discr, TLC, Json
CONSTANTS Gen, Depth
VARIABLES st, hist, d, born
View == <<st, d, born>>
E(op, a) == [op |-> op, a |-> a, x |-> 0]
Pars == {<<0, 0, 0, 0, 1>>, <<1, 0, 0, 0, -1>>, <<-1, 0, 1, 1, 2>>}
Fits(P, ty) == (ty = 2 => P[3] = 0 /\ P[4] = 0) /\ (ty = 5 => P[1] = 0 /\ P[3] = 0 /\ P[4] = 0)
Types == {0, 1, 2, 3, 4, 5}
On == {k \in 1..2 : st.d[k].on}
Ops == {E("par", P) : P \in Pars} \cup
       {E("new", <<ty, K, 2>>) : ty \in {t \in Types : Fits(st.par, t)}, K \in {1, 2}} \cup
       UNION {{E("sett", <<k, ty>>) : ty \in {t \in Types : Fits(st.d[k].par, t)}} \cup {E("setp", <<k, 3 - st.d[k].K, 2>>)} \cup
              (IF Fits(st.par, st.d[k].ty) THEN {E("chg", <<k>>)} ELSE {}) \cup
              {E("step", <<k, 1, 1, -1, 2>>)} \cup (IF st.d[k].ty # 5 THEN {E("sens", <<k, 1, 1, -1, 2>>)} ELSE {}) : k \in On} \cup
       (IF st.d[1].on THEN {E("cl", <<>>)} ELSE {})
Init == st = S0 /\ hist = <<>> /\ d = 0 /\ born = <<>>
Next == d < Depth /\ \E e \in Ops :
    /\ st' = Nxt(st, e)
    /\ d' = d + 1
    /\ born' = IF e.op = "cl" THEN <<st'.d[2]>> ELSE IF Len(e.a) > 0 /\ e.a[1] = 2 /\ e.op \in {"sett", "setp", "chg"} THEN <<st'.d[2]>> ELSE born
    /\ hist' = IF Gen THEN Append(hist, [op |-> e.op, a |-> e.a]) ELSE <<>>
    /\ Gen => PrintT("SCRIPT " \o ToJson(hist'))
CloneFrozen == born # <<>> => st.d[2] = born[1]
Dif(x, y) == <<x.z[1] - y.z[1], x.z[2] - y.z[2]>>
SensIsDifference == \A k \in On : \A n \in {0, 1} : LET D == st.d[k] S == Sens(D, n, 1, -1, 2) IN
    /\ Dif(Flow(D, n, 2, -1, 2), Flow(D, n, 1, -1, 2)) = <<S[1], S[3]>>
    /\ Dif(Flow(D, n, 1, 0, 2), Flow(D, n, 1, -1, 2)) = <<S[2], S[4]>>
    /\ Dif(Flow(D, n, 1, -1, 3), Flow(D, n, 1, -1, 2)) = <<S[5], S[6]>>
\* a two-step interval is two one-step intervals in a row
Composes == \A k \in On : LET D == st.d[k] D1 == [D EXCEPT !.K = 1] Z == X0(1, -1, 0, 0) IN
    D.K = 2 => Go(D, Z, 0, 1, 2, 0).z = Go(D1, Go(D1, Z, 0, 2, 2, 0).z, 0, 3, 2, 0).z
=============================================================================
