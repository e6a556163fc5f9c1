------------------------------- MODULE CtrlMC -------------------------------
(* Bounded model of Ctrl: the PID's integrator and output stay in their bounds, a clone's answers never change by what
   is done to the original, and a sampled feedback law is held constant outside its stamps. *)
EXTENDS Ctrl, TLC, Json
CONSTANTS Mode, Seeds, Gen, Depth
VARIABLES st, hist, d, born
View == <<st, d, born>>
E(op, a) == [op |-> op, a |-> a, x |-> 0]
PidOps == IF ~st.pid[1].on THEN {E("pid", <<2, 3, 1, 2, 2, 9, -5, 1, 0>>), E("pid", <<1, -2, 2, 4, 1, 7, 1, 0, 1>>)}
          ELSE UNION {IF st.pid[k].on THEN {E("pu", <<k, x>>) : x \in {-2, 0, 3}} \cup {E("pv", <<k, 1, 2>>), E("pset", <<k, 4>>),
                          E("psetv", <<k, -3, 1>>), E("pini", <<k, 2>>), E("prst", <<k>>), E("ppar", <<k, 1, 1, 0, 1, 1, 3, -3>>)} ELSE {} : k \in {1, 2}}
               \cup {E("pcl", <<>>)}
Sl == {k \in 1..3 : st.c[k].k # "no"}
Edits(k) == CASE st.c[k].k = "sf" -> {E("edit", <<k, 0, 5, -5>>), E("shift", <<k, 1>>)} \cup {E("upd", <<k, z, 0, 2>>) : z \in Seeds}
              [] st.c[k].k = "cc" -> {E("setu", <<k, 4, -4>>)}
              [] st.c[k].k = "cf" -> {E("law", <<k, z, b>>) : z \in Seeds, b \in {0, 1}}
Asks(k) == {E("u", <<k, 1, -2, t>>) : t \in {-1, 0, 1, 3}} \cup (IF st.c[k].k = "sf" THEN {E("len", <<k>>), E("ext", <<k, 3, 2>>)} ELSE {})
LoopOps == IF st.c[1].k = "no" THEN {E("sf", <<ty, 0, 2, 2, z>>) : ty \in {0, 1}, z \in Seeds} \cup {E("cc", <<3, -1>>), E("cf", <<2>>)}
           ELSE UNION {Edits(k) \cup Asks(k) : k \in Sl} \cup (IF st.sys[1] # 2 THEN {E("clone", <<>>)} ELSE {}) \cup {E("sys", <<k>>) : k \in {0, 1}} \cup
                (IF st.sys[1] # -1 THEN {E("att", <<k>>) : k \in (Sl \ {3}) \cup {0}} \cup {E("scl", <<>>), E("last", <<1>>)} \cup
                     {E("dyn", <<1, 1, -2, t>>) : t \in {0, 2}} ELSE {}) \cup
                (IF st.sys[2] # -1 THEN {E("dyn", <<2, 1, -2, t>>) : t \in {0, 2}} \cup {E("last", <<2>>)} ELSE {})
Ops == IF Mode = "pid" THEN PidOps ELSE LoopOps
Init == st = S0 /\ hist = <<>> /\ d = 0 /\ born = <<>>
Next == d < Depth /\ \E e \in Ops :
    /\ st' = Nxt(st, e)
    /\ d' = d + 1
    \* born: what slot 3 (the private copy of a cloned system) was when made, updated only by operations naming slot 3
    /\ born' = IF e.op = "scl" THEN <<st'.c[3]>> ELSE IF Len(e.a) > 0 /\ e.a[1] = 3 /\ e.op \in {"edit", "shift", "upd", "setu", "law"} THEN <<st'.c[3]>> ELSE born
    /\ hist' = IF Gen THEN Append(hist, [op |-> e.op, a |-> e.a]) ELSE <<>>
    /\ Gen => PrintT("SCRIPT " \o ToJson(hist'))
Bound == TRUE
PidBounds == \A k \in {1, 2} : LET p == st.pid[k] IN p.on =>
    \A x \in {-5, 0, 5} : LET u == PidU(p, x, FALSE, 0) IN (p.mn <= p.mx => u >= 4 * p.mn /\ u <= 4 * p.mx) /\
        LET i == NewI(p, p.xd - x) IN i <= 4 * p.im /\ i >= -4 * p.im
CloneFrozen == born # <<>> => st.c[3] = born[1]
HeldAtEnds == \A k \in Sl : st.c[k].k = "sf" => \A x \in {<<1, 2>>} :
    U(st.c[k], x, -40) = Un(st.c[k], x, 1) /\ U(st.c[k], x, 60) = LET c == st.c[k] n == Len(c.u) IN
        Sc(16, Add(c.u[n], MV(c.K[n], Sub(x, c.X[n + 1]))))
=============================================================================
