------------------------------ MODULE DerivMC ------------------------------
(* Bounded model of Deriv: the specified derivatives are the differences of the specified values (exact for these
   polynomials), Hessians are symmetric, and clones keep their function when the original is given another one. *)
EXTENDS Deriv, TLC, Json
CONSTANTS Gen, Depth
VARIABLES st, hist, d
View == <<st, d>>
vars == <<st, hist, d>>
E(op, a) == [op |-> op, a |-> a, x |-> 0]
Fs == << <<1,2,-1,3, 1,0,2,-1,1,2, 1,-2>> \o <<0,1,1,-1, 2,1,-1,0,3,1, -1,1>>,
         <<0,-1,2,0, 0,3,1,2,-1,-2, 2,1>> \o <<5,0,0,2, -1,1,1,1,0,-1, 1,2>> >>
Dims(k) == CASE k \in {0, 1, 4} -> { <<3, 2>>, <<2, 1>> } [] k \in {2, 3, 5} -> { <<3, 2>>, <<1, 1>>, <<2, 2>>, <<3, 1>> } [] OTHER -> { <<3, 2>> }
News == {E("new", <<1, k>> \o w \o Fs[1]) : k \in 0..7, w \in { <<3, 2>> }} \cup UNION {{E("new", <<1, k>> \o w \o Fs[2]) : w \in Dims(k)} : k \in 0..7}
Upds == UNION {UNION {{E("upd", <<i>> \o w \o f) : f \in {Fs[1], Fs[2]}} : w \in (IF st[i].k = 4 THEN {<<st[i].n, st[i].m>>} ELSE Dims(5))} : i \in {i \in 1..3 : st[i].k \in {4, 5}}}
Pt(n) == IF n = 3 THEN <<2, -1, 1>> ELSE IF n = 2 THEN <<-1, 3>> ELSE <<2>>
La(m) == IF m = 2 THEN <<1, -2>> ELSE <<3>>
Asks == UNION {{E("jac", <<i>> \o Pt(st[i].n)), E("f0", <<i>> \o Pt(st[i].n)), E("sj", <<i>> \o Pt(st[i].n)),
                E("hes", <<i>> \o Pt(st[i].n) \o La(st[i].m)), E("sh", <<i>> \o Pt(st[i].n) \o La(st[i].m))} : i \in {i \in 1..3 : st[i] # None}}
Ops == News \cup Upds \cup Asks \cup UNION {{E("cl", <<i, j>>) : j \in {2, 3} \ {i}} : i \in {i \in 1..2 : st[i] # None}}
Init == st = S0 /\ hist = <<>> /\ d = 0
Next == d < Depth /\ \E e \in Ops :
    /\ st' = Nxt(st, e)
    /\ d' = d + 1
    /\ hist' = IF Gen THEN Append(hist, [op |-> e.op, a |-> e.a]) ELSE <<>>
    /\ Gen => PrintT("SCRIPT " \o ToJson(hist'))
U(i) == [j \in 1..3 |-> IF i = j THEN 1 ELSE 0]
Plus(x, i, h) == [x EXCEPT ![i] = @ + h]
ASSUME \A f \in 1..2, k \in 1..2, x \in {-1, 0, 2} \X {-2, 1} \X {0, 3} : LET o == [k |-> 4, n |-> 3, m |-> 2, c |-> Fs[f]] IN
    \A i \in 1..3 : /\ Val(o, k, Plus(x, i, 1)) - Val(o, k, Plus(x, i, -1)) = 2 * Dif(o, k, i, x)
                    /\ \A j \in 1..3 : Dif(o, k, i, Plus(x, j, 1)) - Dif(o, k, i, Plus(x, j, -1)) = 2 * Dif2(o, k, i, j, x)
                    /\ \A j \in 1..3 : Dif2(o, k, i, j, x) = Dif2(o, k, j, i, x)
\* an object is only changed by naming it as a target
Own == [][\A i \in 1..3 : st'[i] # st[i] => (i = 1 \/ \E j \in 1..2 : st'[i] = st[j] \/ (st[i].k \in {4, 5} /\ st'[i].k = st[i].k))]_vars
=============================================================================
