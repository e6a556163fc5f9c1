------------------------------ MODULE ConstrMC ------------------------------
(* Bounded model of Constr: Jacobians are derivatives (every term is quadratic in each variable, so the central difference is
   exact), violations measure the distance to the box, refused terms and queries change nothing, and a clone answers as
   the original did when it was cloned, whatever happens to the original afterwards.                                   *)
EXTENDS Constr, TLC, Json
CONSTANTS Gen, Depth, Switched
VARIABLES st, hist, n, born
View == <<st, born, n>>
E(op, a) == [op |-> op, a |-> a]
Cat5 == { <<1, 1, 0, 1, 1, 0, -1, -2, 0, 2, 2>>, <<2, 0, 1, 1, -1, -1, 1, 2>>, <<3, 1, -1, 2>>, <<4, 1, 0, -1, 1, 2, 1, 1, 1>>, <<5, 2>>, <<1, 0, 1, 1, 1, 0, 0, 3, 1, 1, 2>> }
Few == { <<1, 1, 0, 1, 1, 0, -1, -2, 0, 2, 2>>, <<5, 2>>, <<2, 1, 0, 1, 0, -1, 0, 2>> }
Pts == { <<1, -2, 3, 2, -1, 2>>, <<-3, 2, 1, 0, 3, 5>> }
Qs == 0..9
Ops == IF ~Switched
       THEN {E("add", <<1, k, 0>> \o d) : k \in 0..1, d \in {q \in Cat5 : Len(st[1].I) + Len(st[1].T) < 3}}
            \cup {E("init", <<i>>) : i \in {j \in 1..2 : st[j].on}} \cup {E("set", <<i>> \o p) : i \in {j \in 1..2 : st[j].on}, p \in Pts}
            \cup {E("clone", <<1, 2>>)} \cup {E("mut", <<1, k, 1, -1>>) : k \in 0..1}
       ELSE {E("add", <<i, k, 0>> \o d) : i \in 1..2, k \in 0..1, d \in {q \in Few : ~st[4].on}}
            \cup (IF st[4].on THEN {E("init", <<4>>)} \cup {E("set", <<4>> \o p) : p \in Pts} \cup {E("clone", <<4, 3>>)}
                  ELSE {E("switch", <<4, 0>> \o q) : q \in {<<1, 3, 2, 2>>, <<2, 3, 1, 0, 2, 4>>, <<1, 1, 2, 1, 1, 5>>}})
Init == st = [S0 EXCEPT ![1] = [None EXCEPT !.on = TRUE], ![2] = [None EXCEPT !.on = Switched], ![3] = [None EXCEPT !.on = Switched]] /\ n = 0 /\ born = <<>>
        /\ hist = <<E("new", <<1, 0>>)>> \o (IF Switched THEN <<E("new", <<2, 0>>), E("new", <<3, 0>>)>> ELSE <<>>)
Answers(c) == IF c.sw /\ ~c.iI THEN <<>> ELSE [k \in 0..1 |-> [w \in Qs |-> Query(c, k, w)]]
\* after each step, one query of everything there is
QueryOps == IF Switched THEN Cat([k \in 1..2 |-> IF st'[k + 2].on /\ st'[k + 2].sw THEN Cat([w \in 1..10 |-> <<E("q", <<k + 2, 0, w - 1>>), E("q", <<k + 2, 1, w - 1>>)>>]) ELSE <<>>])
            ELSE Cat([k \in 1..2 |-> IF st'[k].on THEN Cat([w \in 1..10 |-> <<E("q", <<k, 0, w - 1>>), E("q", <<k, 1, w - 1>>)>>]) ELSE <<>>])
Next == /\ n < Depth
        /\ \E e \in Ops :
            /\ st' = Nxt(st, e)
            /\ n' = n + 1
            /\ born' = IF e.op = "clone" THEN <<Answers(st[e.a[1]])>> ELSE IF e.op \in {"set", "init"} /\ e.a[1] \in {2, 3} THEN <<>> ELSE born
            /\ hist' = IF Gen THEN Append(hist, e) ELSE <<>>
            /\ Gen => PrintT("SCRIPT " \o ToJson(hist' \o (IF e.op = "switch" \/ (Switched /\ ~\E i \in 1..Len(hist') : hist'[i].op = "set" /\ hist'[i].a[1] = 4) THEN <<>> ELSE QueryOps)))
CloneFrozen == born # <<>> => Answers(st[IF Switched THEN 3 ELSE 2]) = born[1]
Xs == {-2, 0, 3}
Bump(v, i, d) == [v EXCEPT ![i] = @ + d]
Derivative == \A d \in Cat5 : \A x \in {<<a, b, c>> : a \in Xs, b \in Xs, c \in {1, 2}}, u \in {<<1, -2>>, <<3, 2>>} : \A t \in {2} :
    /\ \A i \in 1..3 : \A r \in 1..Rows(d) : Eval(d, Bump(x, i, 1), u, t)[r] - Eval(d, Bump(x, i, -1), u, t)[r] = 2 * JacX(d, x, u, t)[r][i]
    /\ \A i \in 1..2 : \A r \in 1..Rows(d) : Eval(d, x, Bump(u, i, 1), t)[r] - Eval(d, x, Bump(u, i, -1), t)[r] = 2 * JacU(d, x, u, t)[r][i]
    /\ Len(Lb(d)) = Rows(d) /\ Len(Ub(d)) = Rows(d) /\ NzX(d) <= 3 * Rows(d) /\ NzU(d) <= 2 * Rows(d)
DerivativeOnce == n # 0 \/ Derivative
Projects == \A i \in 1..4 : \A k \in 0..1 : (st[i].on /\ ~st[i].sw /\ Ready(st[i], k)) =>
    LET g == Query(st[i], k, 1).r v == Query(st[i], k, 5).r b == Query(st[i], k, 2).r m == Len(g) IN
    \A j \in 1..m : b[j] <= g[j] - v[j] /\ g[j] - v[j] <= b[m + j] /\ (v[j] = 0 <=> b[j] <= g[j] /\ g[j] <= b[m + j])
=============================================================================
