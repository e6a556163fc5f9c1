----------------------------- MODULE SettingsMC -----------------------------
(* Bounded model of Settings: loading is idempotent, takes every entry over, depends on nothing but the entries and the
   settings without an entry, and touches only the object it is called on. *)
EXTENDS Settings, TLC, Json
CONSTANTS Gen, Depth, Classes
VARIABLES st, hist, d
View == <<st, d>>
vars == <<st, hist, d>>
E(op, a) == [op |-> op, a |-> a, x |-> 0]
\* entries with value i and 1 alternate; all values are admissible for every type of field (0 or 1)
Full(c, z) == [i \in 1..(2 * N(c)) |-> IF i % 2 = 1 THEN (i + 1) \div 2 ELSE ((i \div 2) + z) % 2]
Only(c, I, z) == LET RECURSIVE G(_)
                     G(i) == IF i > N(c) THEN <<>> ELSE (IF i \in I THEN <<i, (i + z) % 2>> ELSE <<>>) \o G(i + 1)
                 IN G(1)
Drop(c) == CASE c = 3 -> 1..23 \cup {29} [] c = 6 -> {1, 2, 4, 5, 9, 20, 25, 28} [] c = 8 -> {1, 7, 11, 12, 15, 20, 36, 41, 53} [] OTHER -> 1..N(c)
Files(c) == {Full(c, z) : z \in 0..1} \cup {Only(c, (1..N(c)) \ {i}, z) : i \in Drop(c), z \in 0..1}
            \cup (IF c \in {2, 3, 10} THEN {Only(c, {i}, z) : i \in (Drop(c) \ (IF c = 3 THEN {29} ELSE {})), z \in 0..1} \cup {<<>>} ELSE {})
Ini(c, z) == [i \in 1..N(c) |-> z]
Live == {<<k, c>> \in (0..2) \X Classes : st[k][c] # <<>>}
Ops == {E("init", <<0, c>> \o Ini(c, z)) : c \in Classes, z \in 0..1}
       \cup UNION {{E("load", <<p[1], p[2], 0, 0>> \o f) : f \in Files(p[2])} : p \in Live}
       \cup {E("cp", <<p[1], k, p[2]>>) : p \in Live, k \in {1}}
RECURSIVE Gets(_, _)
Gets(s, L) == IF L = {} THEN <<>> ELSE LET p == CHOOSE p \in L : TRUE IN <<[op |-> "get", a |-> p]>> \o Gets(s, L \ {p})
Init == st = S0 /\ hist = <<>> /\ d = 0
Next == d < Depth /\ \E e \in Ops :
    /\ st' = Nxt(st, e)
    /\ d' = d + 1
    /\ hist' = IF Gen THEN hist \o <<[op |-> e.op, a |-> e.a]>> ELSE <<>>
    /\ Gen /\ st'[e.a[1]] # S0[0] => PrintT("SCRIPT " \o ToJson(hist' \o Gets(st', Live')))
ASSUME \A c \in Classes, z \in 0..1 : \A g \in Files(c) : LET f == File(g, N(c)) o == Ini(c, z) IN
    Need(c, f) => LET n == New(c, f, o) IN
        /\ Len(n) = N(c)
        /\ New(c, f, n) = n                                                                            \* idempotent
        /\ (c \notin {6, 8}) => \A i \in 1..N(c) : Has(f, i) => n[i] = f[i][1]                          \* every entry counts
        /\ All(f, N(c)) /\ c \notin {6, 8} => n = New(c, f, Ini(c, 1 - z))                              \* nothing else does
        /\ c \in {2, 5, 9} => \A i \in 1..N(c) : ~Has(f, i) => n[i] = o[i]
Own == [][\A k \in 0..2, c \in 1..10 : st'[k][c] # st[k][c] => (\A j \in 0..2, q \in 1..10 : <<j, q>> # <<k, c>> => st'[j][q] = st[j][q])]_vars
=============================================================================
