------------------------------ MODULE TrajMC ------------------------------
(* Bounded model of Traj with the implementation's one hidden variable made explicit: the cached index ("hint") from
   which a lookup hunts up or down.  TLC checks that for every reachable content and every reachable hint the hunt
   finds exactly what the pure definition says (so lookups are history independent), and prints, for every transition
   of the bounded state graph, a shortest behaviour that takes it; those are replayed into the real classes.     *)
EXTENDS Traj, TLC, Json
CONSTANTS MaxT, MaxL, Slots, Gen
VARIABLES st, hint, hist
vars == <<st, hint, hist>>
View == <<st, hint>>

\* the hunting algorithm, 0-based hint as in the code
RECURSIVE Down(_, _, _), Up(_, _, _)
Down(tm, i, t) == IF i = 0 \/ tm[i + 1] <= t THEN i ELSE Down(tm, i - 1, t)
Up(tm, i, t) == IF i = Len(tm) THEN Len(tm) - 1 ELSE IF tm[i + 1] > t THEN i - 1 ELSE Up(tm, i + 1, t)
Min(x, y) == IF x < y THEN x ELSE y
Hunt(tm, h, t) == LET h0 == Min(h, Len(tm) - 1) IN IF tm[h0 + 1] > t THEN Down(tm, h0, t) ELSE Up(tm, h0, t)

E(op, a) == [op |-> op, a |-> a]
Times == 0..MaxT
OpsOf(k) ==
    LET T == st.tr[k]  n == Len(T.t) IN
    {E("eval", <<k, t>>) : t \in -1..(MaxT + 1)} \cup
    {E("idx", <<k, t>>) : t \in -1..(MaxT + 1)} \cup
    {E("type", <<k, y>>) : y \in {0, 1}} \cup
    {E("dump", <<k>>)} \cup
    {E("clear", <<k>>)} \cup
    (IF n < MaxL /\ Consistent(T)
        THEN {E("push", <<k, n + 1, t, 1>>) : t \in {u \in Times : n = 0 \/ u >= T.t[n]}} \cup
             (IF n > 0 THEN {E("push", <<k, n + 1, dt, 0>>) : dt \in {u \in Times : T.t[n] + u <= MaxT}} ELSE {})
        ELSE {}) \cup
    (IF n > 0 /\ Consistent(T)
        THEN {E("pop", <<k>>), E("ends", <<k>>)} \cup {E("efr", <<k, m, 0>>) : m \in 0..n} \cup
             {E("efr", <<k, m, 1>>) : m \in {u \in 1..(n - 1) : T.t[u + 1] > 0}} \cup
             (IF T.t[1] > 0 THEN {E("shift", <<k, 1>>)} ELSE {}) \cup
             {E("sub", <<j, k, u, v>>) : j \in Slots, u \in 0..(n - 1), v \in {w \in 0..(n - 1) : TRUE}} ELSE {})
Legal(e) == e.op = "sub" => e.a[3] <= e.a[4]
Ops == {e \in UNION {OpsOf(k) : k \in Slots} \cup
              (IF Cardinality(Slots) > 1 THEN {E("swap", <<1, 2>>)} \cup
                  {E("copy", <<u, 3 - u>>) : u \in {1, 2}} \cup {E("assign", <<u, 3 - u>>) : u \in {1, 2}} ELSE {}) : Legal(e)}

NewHint(e) ==
    CASE e.op \in {"eval", "idx"} ->
            LET T == st.tr[e.a[1]] IN
            IF T.t = <<>> \/ (e.op = "eval" /\ (Len(T.d) < 2 \/ ~Consistent(T))) THEN hint
            ELSE [hint EXCEPT ![e.a[1]] = Hunt(T.t, @, e.a[2])]
      [] e.op \in {"copy", "sub"} -> [hint EXCEPT ![e.a[1]] = 0]
      [] OTHER -> hint

Init == st = S0 /\ hint = <<0, 0>> /\ hist = <<>>
Next == \E e \in Ops :
    /\ st' = Nxt(st, e)
    /\ hint' = NewHint(e)
    /\ hist' = IF Gen THEN Append(hist, e) ELSE <<>>
    /\ Gen => PrintT("SCRIPT " \o ToJson(hist'))

(* ---------------------------------------------------------------- properties of the specification *)
HistoryIndependent ==    \* whatever was asked before, the hunt yields the defined index
    \A k \in Slots : st.tr[k].t # <<>> => \A t \in -1..(MaxT + 1) : Hunt(st.tr[k].t, hint[k], t) = IdxDef(st.tr[k].t, t) - 1
Balanced == \A k \in Slots : Consistent(st.tr[k])
Sorted == \A k \in Slots : \A i \in 1..(Len(st.tr[k].t) - 1) : st.tr[k].t[i] <= st.tr[k].t[i + 1]
\* interpolated values stay between the neighbouring samples, and samples are reproduced at their own (last) stamps
Between == \A k \in Slots : LET T == st.tr[k] IN T.t # <<>> =>
    \A t \in -1..(MaxT + 1) : LET v == ValDef(T, t) i == IdxDef(T.t, t) IN
        IF i = Len(T.t) \/ t < T.t[1] THEN v \in {SC * T.d[1], SC * T.d[Len(T.d)]}
        ELSE /\ (v >= SC * T.d[i] /\ v <= SC * T.d[i + 1]) \/ (v <= SC * T.d[i] /\ v >= SC * T.d[i + 1])
             /\ (t = T.t[i] => v = SC * T.d[i])
============================================================================
