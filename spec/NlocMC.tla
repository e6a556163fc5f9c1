-------------------------------- MODULE NlocMC --------------------------------
(* Bounded model of Nloc: every run of iterations, warm starts, and changes of cost, dynamics, initial state, horizon and
   settings, within the bounds in which the arithmetic stays exact. *)
EXTENDS Nloc, TLC, Json
CONSTANTS Gen, Depth, Algs, Ks, Thr
VARIABLES st, hist, d, b, ph, dirty    \* b: iterations since the last guess;  dirty: cost or dynamics changed since the last accepted step;  ph: 0 a guess is needed, 1 guessed, 2 iterated, 3 real-time iterated
View == <<st, d, b, ph, dirty>>
E(op, a) == [op |-> op, a |-> a, x |-> 0, r |-> <<>>]
Sets == {<<a, k, q, l, 2, r, Thr, 2>> : a \in Algs, k \in Ks, q \in {1, 2}, l \in {0, 1, 2}, r \in {1}}
Max2(k) == IF k = 2 THEN 3 ELSE 2
Run == IF ph \in {1, 2} /\ b < Max2(K(st)) THEN {E("iter", <<>>)} \cup (IF ph = 1 THEN {E("pf", <<>>), E("mpc", <<>>)} \cup (IF Max2(K(st)) - b >= st.set[8] THEN {E("solve", <<>>)} ELSE {}) ELSE {}) ELSE {}
Ops == IF ~st.on THEN {E("new", q) : q \in Sets} \cup {E("new", <<1, 2, 2, 0, 2, 1, Thr, 2>>)}
       ELSE Run \cup {E("guess", <<1, 0>>), E("guess", <<2, 1>>)} \cup
            (IF ph = 0 THEN {E("guess", <<2, -1>>)} ELSE {}) \cup
            (IF ph = 1 \/ (ph = 2 /\ ~st.lost /\ st.set[4] # 0) THEN {E("cost", <<3, 11>>), E("sys", <<1, 1, 9>>)} ELSE {}) \cup
            (IF ph = 1 /\ st.it = 0 THEN {E("x0", <<3>>)} ELSE {}) \cup
            {E("tf", <<5 - K(st)>>), E("conf", <<(Alg(st) + 2) % 7, K(st), 1, 1, 2, 1, Thr, 2>>)}
Init == st = S0 /\ hist = <<>> /\ d = 0 /\ b = 0 /\ ph = 0 /\ dirty = FALSE
Next == d < Depth /\ \E e \in Ops :
    /\ (ph = 0 /\ st.on) => e.op \in {"guess"}
    /\ st' = Nxt(st, e)
    /\ d' = d + 1
    /\ dirty' = CASE e.op \in {"cost", "sys"} -> ph = 2 [] e.op = "guess" -> FALSE [] e.op \in Runs -> dirty /\ st'.alpha = 0 [] OTHER -> dirty
    /\ b' = CASE e.op = "guess" -> 0 [] e.op \in Runs -> st'.n - st.n + b [] OTHER -> b
    /\ ph' = CASE e.op \in {"new", "tf", "conf"} -> 0 [] e.op = "guess" -> IF e.a[2] < 0 THEN ph ELSE 1 [] e.op = "mpc" -> 3 [] e.op \in Runs -> 2 [] OTHER -> ph
    /\ hist' = IF Gen THEN Append(hist, [op |-> e.op, a |-> e.a]) ELSE <<>>
    /\ Gen => PrintT("SCRIPT " \o ToJson(hist'))
F(s, k) == s.x[k] + Sig(s, k - 1) * s.u[k] + Con(s, k - 1)      \* successor of stage k (1-based)
\* after an iteration the stored trajectory satisfies the dynamics up to the stored defects, which exist only between shots
Dynamics == (ph = 2 /\ ~st.lost /\ ~dirty) => \A k \in 1..K(st) : F(st, k) - st.x[k + 1] = st.d[k] /\ (k % Per(st) # 0 => st.d[k] = 0)
SingleExact == (ph = 2 /\ ~st.lost /\ ~dirty /\ Single(Alg(st))) => Norm(st.d) = 0
CostIs == (ph = 2 /\ ~st.lost /\ ~dirty) => st.c = Cost(st, st.x, st.u)
Sizes == st.init => Len(st.x) = Len(st.u) + 1 /\ Len(st.l) = Len(st.u) /\ (ph # 0 => Len(st.u) = K(st))
InitialState == [][(ph' \in {2, 3} /\ ~st'.lost /\ st.init) => st'.x[1] = st.x[1]]_<<st, ph>>
\* with a line search an iteration never increases the merit, and either reports a step or leaves everything as it was
Descent == [][(ph' = 2 /\ ~st'.lost /\ st'.n = st.n + 1 /\ st.it > 0 /\ st.set[4] # 0) =>
              /\ Merit(st', st'.c, st'.d) <= Merit(st, st.c, st.d)
              /\ st'.alpha = 0 => st'.x = st.x /\ st'.u = st.u /\ st'.d = st.d /\ st'.ret = 0]_<<st, ph>>
\* linear dynamics: a full multiple-shooting step closes all gaps
GapsClose == [][(ph' = 2 /\ ~st'.lost /\ st'.n = st.n + 1 /\ st.it > 0 /\ st.set[4] = 0 /\ ~dirty) => Norm(st'.d) = 0]_<<st, ph>>
=============================================================================
