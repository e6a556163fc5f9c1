------------------------------- MODULE UtilMC -------------------------------
(* Bounded model of Util: whatever the history, quantisation loses nothing (outputs without bias plus rest = inputs since the
   last reset), rests stay smaller than an interval, indices and objects do not influence each other. *)
EXTENDS Util, TLC, Json
CONSTANTS Gen, Depth, Part
VARIABLES st, hist, d, acc       \* acc[k][i]: inputs minus outputs (without bias) since the rest was last empty
View == <<st, d, acc>>
vars == <<st, hist, d, acc>>
E(op, a) == [op |-> op, a |-> a, x |-> 0]
Live == {k \in Slots : st.Q[k].on = 1}
OpsQ == {E("qnew", <<0, b, q, m>>) : b \in {0, 5}, q \in {3, 16}, m \in 0..1}
        \cup UNION {{E("qv", <<k, i, v>>) : i \in {0, 2, 5}, v \in {-17, 8, 20}} : k \in Live}
        \cup UNION {{E("qvec", <<k, 7, -9, v>>) : v \in {8, 33}} \cup {E("qreset", <<k>>)} : k \in Live}
        \cup {E("qcp", <<k, 1>>) : k \in Live \ {1}}
Watched == {k \in 0..3 : st.T[k].a # <<>>}
Read == {k \in 0..3 : (st.T[k].a = <<>>) = (st.T[k].z = <<>>)}
OpsT == {E("clk", <<3>>)} \cup {E("tstart", <<k, 4 + d>>) : k \in {0, 1, 2}} \cup {E("tstop", <<k, 9 + d>>) : k \in Watched} \cup {E("treset", <<k>>) : k \in {0, 2}}
        \cup {E("tget", <<k>>) : k \in Read \cap {0, 1, 2}}
OpsP == {E("pnew", <<0, w, 2, -1, 4, 3>>) : w \in 0..2} \cup {E("pnew", <<1, 1, -3, 2, 1, 0>>), E("pcp", <<0, 1>>)}
        \cup {E("pcoef", <<k, i, 7>>) : k \in 0..1, i \in {0, 1, 2, 3, 4}} \cup {E("psolve", <<z[1], z[2], 5, -3>>) : z \in {z \in (0..1) \X (1..3) : st.P[z[1]][z[2]] # 0}} \cup {E("pget", <<0>>), E("pget", <<1>>)}
OpsC == {E("cnew", <<0, 2, 5, 6, 1, 2, 3>>), E("cu", <<0, 8, 9>>), E("cx", <<1, 4, 4>>), E("ccp", <<0, 1>>), E("cget", <<0>>), E("cget", <<1>>), E("crun", <<0>>)}
        \cup {E("lset", <<k, 3 + k, 4, 5>>) : k \in 0..1} \cup {E("lswap", <<0, 1>>), E("lget", <<0>>), E("lget", <<1>>)}
Ops == CASE Part = "q" -> OpsQ [] Part = "t" -> OpsT [] Part = "p" -> OpsP [] OTHER -> OpsC
Tailing(s) == CASE Part = "q" -> LET RECURSIVE G(_)
                                   G(L) == IF L = {} THEN <<>> ELSE LET k == CHOOSE k \in L : TRUE IN <<[op |-> "qvec", a |-> <<k, 0, 1, 2>>], [op |-> "qv", a |-> <<k, 5, 1>>]>> \o G(L \ {k})
                                 IN G({k \in Slots : s.Q[k].on = 1})
                [] OTHER -> <<>>
Zero == [i \in Idx |-> 0]
Init == st = S0 /\ hist = <<>> /\ d = 0 /\ acc = [k \in Slots |-> Zero]
Acc(e) ==
    LET a == e.a IN
    CASE e.op \in {"qnew", "qreset"} -> [acc EXCEPT ![a[1]] = Zero]
      [] e.op = "qcp" -> [acc EXCEPT ![a[2]] = acc[a[1]]]
      [] e.op = "qv" -> [acc EXCEPT ![a[1]][a[2]] = @ + a[3] - (Exp(st, e).r[1] - st.Q[a[1]].b)]
      [] e.op = "qvec" -> [acc EXCEPT ![a[1]] = [i \in Idx |-> IF i <= 2 THEN @[i] + a[i + 2] - (Exp(st, e).r[i + 1] - st.Q[a[1]].b) ELSE @[i]]]
      [] OTHER -> acc
Next == d < Depth /\ \E e \in Ops :
    /\ st' = Nxt(st, e)
    /\ acc' = Acc(e)
    /\ d' = d + 1
    /\ hist' = IF Gen THEN Append(hist, [op |-> e.op, a |-> e.a]) ELSE <<>>
    /\ Gen => PrintT("SCRIPT " \o ToJson(hist' \o Tailing(st')))
NothingLost == \A k \in Slots : st.Q[k].rest = acc[k]
Small == \A k \in Live, i \in Idx : LET o == st.Q[k] IN IF o.m = 0 THEN o.rest[i] \in 0..(o.q - 1) ELSE 2 * Abs(o.rest[i]) <= o.q
Apart == [][\A j, k \in Slots : (j # k /\ st'.Q[k] # st.Q[k]) => st'.Q[j] = st.Q[j]]_vars
ASSUME \A q \in {<<1, 0, 0, 0>>, <<1, 1, 0, 0>>, <<1, 1, 1, 1>>, <<1, 2, 0, -2>>} :       \* RotM is a rotation times the squared length
    LET M == RotM(q) n == Len2(q) IN \A i, j \in 1..3 : M[3*i-2] * M[3*j-2] + M[3*i-1] * M[3*j-1] + M[3*i] * M[3*j] = IF i = j THEN n * n ELSE 0
=============================================================================
