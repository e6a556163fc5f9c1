-------------------------------- MODULE MpcMC --------------------------------
(* Bounded model of Mpc: every run of prepare / finish / clock / reset / reconfiguration. *)
EXTENDS Mpc, TLC, Json
CONSTANTS Gen, Depth, Modes
VARIABLES st, hist, d, ph, old      \* ph: 0 nothing prepared, 1 prepared;  old: horizon of the policy being replaced
View == <<st, d, ph, old>>
E(op, a) == [op |-> op, a |-> a, x |-> 0]
Sets == {<<m, 4, f[1], f[2], 1, f[3], f[4], f[5], f[6], f[7], f[8], f[9]>> : m \in Modes,
         f \in {<<2, 0, 0, 1, 1, 1, 0, 0, 1>>, <<0, 1, 1, 0, 1, 1, 0, 1, 2>>, <<1, 0, 0, 0, 0, 1, 1, 0, 1>>}}
Now == IF st.on THEN st.elast ELSE 0
Ops == IF ~st.on THEN {E("new", q \o <<9, 1, 5>>) : q \in Sets} \cup {E("new", <<1, 4, 0, 0, 1, 1, 1, 0, 0, 0, 0, 1, 9, 1, 5>>)}
       ELSE (IF ph = 0 THEN {E("prep", <<Now + i, 1>>) : i \in {0, 3}} ELSE {E("fin", <<2, Now + i, 2, ok, 2 + d, -1>>) : i \in {1, 4}, ok \in {0, 1}}
                \cup {E("fin", <<2, Now + 2, 4, 1, 2 + d, 5>>)}) \cup
            {E("clk", <<5>>), E("since", <<Now + 1>>), E("reached", <<>>)} \cup
            (IF ph = 0 THEN {E("reset", <<7>>), E("strat", <<3, 1>>), E("guess", <<9, 3>>), E("upd", <<3, 3, 1, 0, 2, 0, 1, 1, 0, 0, 1, 1>>), E("upd", <<3, 3, 1, 0, 2, 1, 1, 1, 0, 0, 0, 1>>)} ELSE {})
Init == st = S0 /\ hist = <<>> /\ d = 0 /\ ph = 0 /\ old = 0
Next == d < Depth /\ \E e \in Ops :
    /\ st' = Nxt(st, e)
    /\ d' = d + 1
    /\ ph' = CASE e.op = "prep" -> 1 [] e.op \in {"fin", "new"} -> 0 [] OTHER -> ph
    /\ old' = IF e.op = "prep" THEN st.T ELSE old
    /\ hist' = IF Gen THEN Append(hist, [op |-> e.op, a |-> e.a]) ELSE <<>>
    /\ Gen => PrintT("SCRIPT " \o ToJson(hist'))
\* prediction window inside the horizon of the policy it predicts with
Window == ph = 1 => st.fs <= st.fe /\ st.fe <= Max(old, st.fs)
\* the warm start covers the new horizon exactly, on the controller's grid
Covers == (ph = 1 /\ ~st.cold) => /\ Len(st.cur.u) = Steps(st.T) /\ Len(st.cur.x) = Len(st.cur.u) + 1 /\ Len(st.cur.K) = Len(st.cur.u)
                                  /\ \A i \in 1..Len(st.cur.t) : st.cur.t[i] = DT * (i - 1)
FirstPredictsNothing == (ph = 1 /\ st.first) => st.fs = 0 /\ st.fe = 0
Horizon == (ph = 1 /\ st.custom = <<>>) => st.T >= 0 /\ (Mode(st) \in {0, 3} => st.T <= Max(st.T0, 0)) /\ (Mode(st) = 2 => st.T >= st.set[2])
\* every policy handed out is non-empty
NonEmpty == st.on => Len(st.cur.u) >= 1 /\ Len(st.prev.u) >= 1
=============================================================================
