------------------------------- MODULE CostMC -------------------------------
(* Bounded model of Cost: gradients and Hessians are the differences of the value (every polynomial term is of degree two
   in each single variable, so central differences are exact), a clone answers as the original did whatever happens to
   the original.                                                                                                       *)
EXTENDS Cost, TLC, Json
CONSTANTS Gen, Depth, Simple
VARIABLES st, hist, n, born
View == <<st, born, n>>
E(op, a) == [op |-> op, a |-> a]
Cats == { <<1, 1, -2, 0, 2, 1, 3>>, <<2, 1, 2, 0, 0, -1, 0, 1, 0, 2, 1, 1, 0, 2, 1, 0, -1, 2, 0>>, <<3, 1, 0, 2, -1, 1, 0, 1, 1, 0, 0, 1>>,
          <<4, 1, 0, 1, 0, 2, 0, 0, 0, 1, 1, -1, 0, 2, 0, 1, 1, 1, 0>>,
          <<5, 1, 0, 0, 0, 2, 1, 0, 0, 1, 1, 0, 2, 1, 1, 1, 0, 2, -2, 2, 2, 0, 4, -2, 2, 0, 2, 2, -2, 4, 0>> }
Acts == { <<0>>, <<1, 1, 3>>, <<2, 0, 4, 2, 1>>, <<3, 2, 2, 0, 1, -1>> }
Points == { <<1, -2, 3, 2, -1, 2>>, <<-1, 2, 0, 0, 3, 3>> }
SimpleQ == <<1, 2, 0, 2, 2, -1, 0, -1, 3, 1, 1, 1, 2, 1, -1, 0, 2, 1, 0, 1, 2, 2, 0, 1, 0, 1, 0, 1, 0, 2>>   \* symmetric weights
Live == {j \in 1..2 : st[j].on}
Ops == (IF Simple THEN {} ELSE {E("add", <<1, k, Len(a)>> \o a \o d) : k \in 0..1, a \in Acts, d \in {q \in Cats : Len(st[1].I) + Len(st[1].T) < 2}})
       \cup {E("set", <<i>> \o p) : i \in Live, p \in Points} \cup {E("shift", <<1, 1>>)} \cup {E("refx", <<1, 2, 0, -1>>), E("refu", <<1, 1, 2>>), E("reff", <<1, 0, 1, 1>>)}
       \cup {E("clone", <<1, 2>>)} \cup {E("nd", <<1, w>>) : w \in {2, 4}}
       \cup (IF Simple THEN {} ELSE {E("upd", <<1, k, 1, 1, 0, 2, 2, 0, 0, 1, 1, 0, 0, 0, 1, 1, 0, 0, 1, 1, 1, 1, 0, 0>>) : k \in 0..1})
Init == /\ st = [S0 EXCEPT ![1] = [None EXCEPT !.on = TRUE, !.q = IF Simple THEN SimpleQ ELSE <<>>]] /\ n = 0 /\ born = <<>>
        /\ hist = <<E("new", <<1>> \o (IF Simple THEN SimpleQ ELSE <<>>))>>
Ws == IF Simple THEN (0..8) \cup {12} ELSE 0..12
Answers(c) == [w \in Ws |-> Query(c, w)]
RECURSIVE Asked(_, _)
Asked(i, w) == IF w < 0 THEN <<>> ELSE Asked(i, w - 1) \o (IF w \in Ws THEN <<E("q", <<i, w>>)>> ELSE <<>>)
Next == /\ n < Depth
        /\ \E e \in Ops :
            /\ st' = Nxt(st, e)
            /\ n' = n + 1
            /\ born' = IF e.op = "clone" THEN <<Answers(st[1])>> ELSE IF e.op = "set" /\ e.a[1] = 2 THEN <<>> ELSE born
            /\ hist' = IF Gen THEN Append(hist, e) ELSE <<>>
            /\ Gen => PrintT("SCRIPT " \o ToJson(hist' \o Cat([i \in 1..2 |-> IF st'[i].on THEN Asked(i, 12) ELSE <<>>])))
CloneFrozen == born # <<>> => Answers(st[2]) = born[1]
Bump(v, i, d) == [v EXCEPT ![i] = @ + d]
\* f(z + e) - f(z - e) = 2 f', second differences are f'', mixed differences the cross derivatives
DerivativeOf(d) == \A x \in {<<1, -2, 3>>, <<0, 2, -1>>}, u \in {<<2, -1>>, <<0, 3>>}, t \in {0, 1, 3, 4} :
    LET g == GradX(d, x, u, t) k == GradU(d, x, u, t) h == HessX(d, x, u, t) r == HessU(d, x, u, t) m == HessUX(d, x, u, t) IN
    /\ \A i \in 1..3 : Val(d, Bump(x, i, 1), u, t) - Val(d, Bump(x, i, -1), u, t) = 2 * g[i]
    /\ \A i \in 1..2 : Val(d, x, Bump(u, i, 1), t) - Val(d, x, Bump(u, i, -1), t) = 2 * k[i]
    /\ \A i, j \in 1..3 : GradX(d, Bump(x, j, 1), u, t)[i] - GradX(d, Bump(x, j, -1), u, t)[i] = 2 * At(h, 3, i, j)
    /\ \A i, j \in 1..2 : GradU(d, x, Bump(u, j, 1), t)[i] - GradU(d, x, Bump(u, j, -1), t)[i] = 2 * At(r, 2, i, j)
    /\ \A i \in 1..2, j \in 1..3 : GradU(d, Bump(x, j, 1), u, t)[i] - GradU(d, Bump(x, j, -1), u, t)[i] = 2 * At(m, 3, i, j)
DerivativeOnce == n # 0 \/ \A d \in Cats : DerivativeOf(d)
=============================================================================
