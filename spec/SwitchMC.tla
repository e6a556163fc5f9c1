------------------------------ MODULE SwitchMC ------------------------------
(* Bounded model of Switch: checks that the half-open phases partition time, that the binary-search rule used to find
   them (first boundary strictly greater than t, minus one) is that partition, and that a clone never changes.  *)
EXTENDS Switch, TLC, Json
CONSTANTS MaxP, MaxD, Kinds, Objects, Gen
VARIABLES st, hist, born   \* born: what the clone looked like when it was made
View == <<st, born>>
E(op, a) == [op |-> op, a |-> a]
Last == st.ts[Len(st.ts)]
SeqOps == (IF Len(st.ph) < MaxP THEN {E("add", <<m, d>>) : m \in 0..1, d \in 0..MaxD} ELSE {}) \cup
          (IF st.ph = <<>> THEN {E("new", <<k, b>>) : k \in Kinds, b \in {-1, 0}}
           ELSE {E("cnt", <<>>), E("ff", <<>>)} \cup {E("at", <<i>>) : i \in 0..(Len(st.ph) - 1)} \cup
                {E("sw", <<i>>) : i \in 0..(Len(st.ph) - 2)} \cup
                {E("t", <<t>>) : t \in -2..(Last + 1)} \cup
                {E("swt", <<t>>) : t \in {u \in -2..(Last + 1) : PhaseIdx(st.ts, u) < Len(st.ph)}})
ObjOps == (IF st.ph # <<>> /\ ~st.o[1].on THEN {E("mk", <<h>>) : h \in {0, 1}} ELSE {}) \cup
          (IF st.o[1].on /\ ~st.o[2].on THEN {E("clone", <<>>)} ELSE {}) \cup
          (IF st.o[1].on /\ st.par[1] = Par0[1] THEN {E("set", <<0, 5, 4>>)} ELSE {}) \cup
          (IF st.o[1].on /\ st.c = 0 THEN {E("ctl", <<3>>)} ELSE {}) \cup
          UNION {IF st.o[k].on THEN {E("f", <<k, 2, 1, -1, t>>) : t \in -2..(Last + 1)} \cup
                                    {E("auto", <<k, 2, 1, t>>) : t \in -2..(Last + 1)} \cup
                                    (IF st.kind \in {1, 3} THEN {E("lin", <<k, t>>) : t \in -2..(Last + 1)} ELSE {})
                 ELSE {} : k \in {1, 2}}
Ops == SeqOps \cup (IF Objects THEN ObjOps ELSE {})
Init == st = S0 /\ hist = <<>> /\ born = <<>>
Next == \E e \in Ops :
    /\ st' = Nxt(st, e)
    /\ born' = IF e.op = "clone" THEN <<st'.o[2]>> ELSE IF e.op = "new" THEN <<>> ELSE born
    /\ hist' = IF Gen THEN Append(hist, e) ELSE <<>>
    /\ Gen => PrintT("SCRIPT " \o ToJson(hist'))
Partition == \A t \in -2..(Last + 1) : (st.ph # <<>> /\ t >= st.ts[1] /\ t < Last) =>
    Cardinality({i \in 1..Len(st.ph) : st.ts[i] <= t /\ t < st.ts[i + 1]}) = 1
UpperBoundRule == \A t \in -2..(Last + 1) : (st.ph # <<>> /\ t >= st.ts[1] /\ t < Last) =>
    PhaseIdx(st.ts, t) = (CHOOSE j \in 1..Len(st.ts) : st.ts[j] > t /\ \A i \in 1..(j - 1) : st.ts[i] <= t) - 1
CloneFrozen == st.o[2].on => st.o[2] = born[1]
=============================================================================
