------------------------------- MODULE IntegMC -------------------------------
(* Bounded exploration of Integ: every order of type changes, handler configurations and runs (finished or aborted).
   Invariants: a run of RK4 ends on the exact solution; logged times are T0 + i D and the last logged state is the
   result; the number of observations is steps (+1 for the initial one), cut where a handler ends the run.       *)
EXTENDS Integ, TLC, Json
CONSTANTS Types, Depth, Gen
VARIABLES st, last, hist
View == <<st, last>>
E(op, a) == [op |-> op, a |-> a]
Runs == {E("run", <<k, 1, -2, p, q, r, T0, D, IF k < 2 THEN n ELSE T0 + n * D + (IF D > 1 THEN 1 ELSE 0)>>) :
            k \in 0..3, p \in {1}, q \in {-1}, r \in {2}, T0 \in {-1, 0}, D \in {1, 2}, n \in 0..3}
Ops == {E("type", <<y>>) : y \in Types} \cup
       {E("cfg", <<m, k, c>>) : m \in {2, 1000}, k \in {0, 2}, c \in {0, 1}} \cup
       {e \in Runs : ~(CT(st.ty) /\ e.a[1] >= 2 /\ e.a[9] # e.a[7])}
Init == st = S0 /\ last = <<>> /\ hist = <<>>
Next == \E e \in Ops :
    /\ Len(hist) < Depth
    /\ st' = Nxt(st, e)
    /\ last' = IF e.op = "run" THEN e.a ELSE last
    /\ hist' = Append(hist, e)
    /\ Gen => PrintT("SCRIPT " \o ToJson(hist'))
A == last
P == [p |-> A[4], q |-> A[5], r |-> A[6]]
N == IF A[1] < 2 THEN A[9] ELSE (A[9] - A[7]) \div A[8]
M == Run(st, P, <<SC * A[2], SC * A[3]>>, A[7], A[8], N)
ExactForRK4 == (last # <<>> /\ st.ty \notin {0, 7} /\ ~M.thrown /\ N > 0) => M.x = Exact(P, <<SC * A[2], SC * A[3]>>, A[7], N * A[8])
LogIsGrid == last # <<>> => \A i \in 1..Len(M.log) : M.log[i][1] = A[7] + (IF CT(st.ty) THEN i ELSE i - 1) * A[8]
LogEndsAtResult == (last # <<>> /\ M.log # <<>>) => <<M.log[Len(M.log)][2], M.log[Len(M.log)][3]>> = M.x
Counts == last # <<>> => /\ M.obs = Len(M.log)
                         /\ ~M.thrown => M.obs = N + (IF CT(st.ty) THEN 0 ELSE 1)
                         /\ M.thrown => M.obs = (IF st.kl = 0 \/ st.kl > st.mx + 1 THEN st.mx + 1 ELSE st.kl)
==============================================================================
