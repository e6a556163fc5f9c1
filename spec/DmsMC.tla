------------------------------- MODULE DmsMC -------------------------------
(* Bounded model of Dms.  For plants linear in state and control the derivative of the constraints is exact over any
   distance, and the cost is quadratic: its central difference is the derivative.  Evaluations change nothing, and what an
   evaluation answers depends on the last accepted variables and the current horizon and initial state only.          *)
EXTENDS Dms, Json
CONSTANTS Gen, Depth
VARIABLES st, hist, n
View == <<st, n>>
E(op, a) == [op |-> op, a |-> a]
Ws == { <<1, -2, 3, 1, 0, 2, 1, -1, -2, 1, 0, 3, 1, 2, -1>>, <<2, 1, 0, -1, 3, 1, -1, 2, 2, -2, -1, 0, 1, 1, 2>> }
Ds == { <<0, 1, 0, 2, -1, 1, 0, -1, 1, 3, 2, -1, 1, 0, 1>>, <<1, 0, 2, -1, 1, -2, 1, 1, 2, 0, 0, 3, -1, 1, 1>> }
NewA(spl, ty, full) == <<2, 2, 1 + ty, spl, ty, full, 7, 2, 1, 1 - ty, ty, 1, 2, 1 - ty, 1, 2, 1, 1, 3, 2, -1, 2, 1, 1, 1, 0, -2>>
Fresh == n > 0 /\ Len(st.w) > 0
Changes == {E("set", <<b>> \o w) : b \in 0..1, w \in Ws} \cup {E("x0", <<3, 1, 2>>)} \cup {E("T", <<h * st.p.dt>>) : h \in 1..2}
Asks == <<E("cost", <<>>), E("con", <<>>), E("grad", <<0, 1, 0, 2, -1, 1, 0, -1, 1, 3, 2, -1, 1, 0, 1>>), E("jac", <<1, 0, 2, -1, 1, -2, 1, 1, 2, 0, 0, 3, -1, 1, 1>>), E("sol", <<>>)>>
Orders == {<<1, 2, 3, 4, 5>>, <<3, 1, 4, 2, 5>>, <<4, 3, 2, 1, 5>>, <<3, 4, 1, 2, 3>>, <<2, 4, 3, 3, 1>>}
Init == \E spl, ty, full \in 0..1 : st = Nxt(S0, E("new", NewA(spl, ty, full))) /\ n = 0 /\ hist = <<E("new", NewA(spl, ty, full))>>
\* a change of horizon or initial state is followed by new variables, as the solvers do
Next == /\ n < Depth
        /\ \E e \in Changes, o \in (IF Gen THEN Orders ELSE {<<1, 2, 3, 4, 5>>}), w \in Ws :
            LET es == IF e.op = "set" /\ (e.a[1] = 1 \/ Len(st.w) > 0) THEN <<e>> ELSE <<e, E("set", <<1>> \o w)>>
                s1 == Nxt(st, e)
            IN /\ st' = IF Len(es) = 1 THEN s1 ELSE Nxt(s1, es[2])
               /\ n' = n + 1
               /\ hist' = IF Gen THEN hist \o es \o [i \in 1..5 |-> Asks[o[i]]] ELSE <<>>
               /\ Gen => PrintT("SCRIPT " \o ToJson(hist'))
Lin(p) == [p EXCEPT !.pl[2] = 0, !.pl[6] = 0]
Plus(w, d, k) == [i \in 1..Len(w) |-> w[i] + k * d[i]]
Derivative == Fresh => \A d \in Ds :
    LET p == Lin(st.p) z == Zero(p)
        up == Con(p, Plus(st.w, d, 1), z) dn == Con(p, Plus(st.w, d, -1), z) j == Con(p, st.w, d)
        cu == Cost(p, Plus(st.w, d, 1), z) cd == Cost(p, Plus(st.w, d, -1), z)
    IN /\ \A i \in 1..Len(j) : Sub(up[i][1], dn[i][1]) = Mul(2, j[i][2])
       /\ Sub(cu[1], cd[1]) = Mul(2, Cost(p, st.w, d)[2])
Sizes == Len(Bounds(st.p, TRUE)) = Len(Bounds(st.p, FALSE)) /\ (Fresh => Len(Con(st.p, st.w, Zero(st.p))) = Len(Bounds(st.p, TRUE)))
\* a problem without constraints is the problem with constraints minus their rows; the number of threads is not part of the state
Rows == Fresh => LET q == [st.p EXCEPT !.mask = 0] IN SubSeq(Con(st.p, st.w, Zero(q)), 1, 3 + 3 * q.N) = Con(q, st.w, Zero(q))
=============================================================================
