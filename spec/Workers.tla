------------------------------- MODULE Workers -------------------------------
(* The worker-pool protocol behind the multi-threaded NLOC backend, at the granularity of its atomic actions: the main
   thread issues phases (LQ approximation / shot rollout over a range of stages, line search over step exponents,
   shutdown), workers sleep on a condition variable, take items from a shared counter, and report when they leave.  A
   worker may be arbitrarily slow at every point, wake up spuriously, and start late.  Checked for every schedule: no
   deadlock, every item of a phase is executed exactly once and before the phase returns, no worker is active outside the
   phase it belongs to, and the line search returns the largest accepted step whatever the order of completion. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N,          \* number of workers
          Items,      \* stages per parallel phase
          Steps,      \* line search: maximum number of step exponents
          Phases      \* length of the phase sequence before shutdown
W == 1..N
VARIABLES ctr, task, busy, active,            \* shared, protected by the wake-up mutex
          kTaken, exec,                        \* work distribution: next item, executions per item
          accept, best, found, processed,      \* line search: oracle of accepted exponents, result, termination flag
          mpc, left,                           \* main thread: program counter, phases left
          wpc, wctr, wtask, witem, asleep      \* workers
vars == <<ctr, task, busy, active, kTaken, exec, accept, best, found, processed, mpc, left, wpc, wctr, wtask, witem, asleep>>
Idle == "idle"
Par == "par"
LS == "ls"
Down == "down"
Count == IF task = LS THEN Steps ELSE Items
Init == /\ ctr = 0 /\ task = Idle /\ busy = 0 /\ active = TRUE /\ kTaken = 0 /\ exec = <<>> /\ accept = {} /\ best = Steps /\ found = FALSE
        /\ processed = {} /\ mpc = "ready" /\ left = Phases
        /\ wpc = [w \in W |-> "check"] /\ wctr = [w \in W |-> 0] /\ wtask = [w \in W |-> Idle] /\ witem = [w \in W |-> 0] /\ asleep = {}
\* ---- main
\* with the mutex held: set the task, the number of workers to wait for, the counter, notify; then wait for busy = 0
Issue == /\ mpc = "ready" /\ left > 0
         /\ \E t \in {Par, LS}, a \in SUBSET (0..(Steps - 1)) :
              /\ t = Par => a = {}
              /\ task' = t /\ accept' = a
              /\ exec' = [i \in 0..((IF t = LS THEN Steps ELSE Items) - 1) |-> 0]
         /\ kTaken' = 0 /\ best' = Steps /\ found' = FALSE /\ processed' = {}
         /\ busy' = N /\ ctr' = ctr + 1 /\ asleep' = {} /\ mpc' = "wait" /\ left' = left - 1
         /\ UNCHANGED <<active, wpc, wctr, wtask, witem>>
Return == /\ mpc = "wait" /\ busy = 0 /\ mpc' = "ready" /\ task' = Idle
          /\ UNCHANGED <<ctr, busy, active, kTaken, exec, accept, best, found, processed, left, wpc, wctr, wtask, witem, asleep>>
Shut == /\ mpc = "ready" /\ left = 0 /\ active' = FALSE /\ task' = Down /\ ctr' = ctr + 1 /\ asleep' = {} /\ mpc' = "join"
        /\ UNCHANGED <<busy, kTaken, exec, accept, best, found, processed, left, wpc, wctr, wtask, witem>>
Join == /\ mpc = "join" /\ \A w \in W : wpc[w] = "gone" /\ mpc' = "end"
        /\ UNCHANGED <<ctr, task, busy, active, kTaken, exec, accept, best, found, processed, left, wpc, wctr, wtask, witem, asleep>>
\* ---- workers
Keep == UNCHANGED <<accept, mpc, left>>
Loop(w) == /\ wpc[w] = "check" /\ wpc' = [wpc EXCEPT ![w] = IF active THEN "lock" ELSE "gone"]
           /\ UNCHANGED <<ctr, task, busy, active, kTaken, exec, best, found, processed, wctr, wtask, witem, asleep>> /\ Keep
\* with the mutex held: either the predicate holds, and the task is copied, or the worker goes to sleep (releasing the mutex)
Wake(w) == /\ wpc[w] = "lock" /\ w \notin asleep
           /\ IF ~active \/ ctr # wctr[w]
              THEN /\ wctr' = [wctr EXCEPT ![w] = ctr] /\ wtask' = [wtask EXCEPT ![w] = task]
                   /\ wpc' = [wpc EXCEPT ![w] = IF active THEN "take" ELSE "gone"] /\ UNCHANGED asleep
              ELSE asleep' = asleep \cup {w} /\ UNCHANGED <<wctr, wtask, wpc>>
           /\ UNCHANGED <<ctr, task, busy, active, kTaken, exec, best, found, processed, witem>> /\ Keep
Spurious(w) == /\ w \in asleep /\ asleep' = asleep \ {w}
               /\ UNCHANGED <<ctr, task, busy, active, kTaken, exec, best, found, processed, wpc, wctr, wtask, witem>> /\ Keep
Take(w) == /\ wpc[w] = "take" /\ kTaken' = kTaken + 1 /\ witem' = [witem EXCEPT ![w] = kTaken]
           /\ wpc' = [wpc EXCEPT ![w] = IF wtask[w] = LS
                          THEN IF kTaken >= Steps \/ found THEN "leave" ELSE "exec"
                          ELSE IF wtask[w] = Par /\ kTaken < Items THEN "exec" ELSE "leave"]
           /\ UNCHANGED <<ctr, task, busy, active, exec, best, found, processed, wctr, wtask, asleep>> /\ Keep
\* the item itself: for the line search the result is reported afterwards, under the result mutex; an evaluation may be
\* cut short once the search is over
Exec(w) == /\ wpc[w] = "exec" /\ exec' = [exec EXCEPT ![witem[w]] = @ + 1]
           /\ wpc' = [wpc EXCEPT ![w] = IF wtask[w] = LS THEN "report" ELSE "take"]
           /\ UNCHANGED <<ctr, task, busy, active, kTaken, best, found, processed, wctr, wtask, witem, asleep>> /\ Keep
Report(w) == /\ wpc[w] = "report"
             /\ LET i == witem[w] IN
                IF i \in accept /\ (found \/ i > best) THEN wpc' = [wpc EXCEPT ![w] = "leave"] /\ UNCHANGED <<best, processed, found>>
                ELSE LET b == IF i \in accept /\ ~found THEN i ELSE best p == processed \cup {i} IN
                     /\ best' = b /\ processed' = p /\ found' = (found \/ \A j \in 0..(b - 1) : j \in p)
                     /\ wpc' = [wpc EXCEPT ![w] = "take"]
             /\ UNCHANGED <<ctr, task, busy, active, kTaken, exec, wctr, wtask, witem, asleep>> /\ Keep
Leave(w) == /\ wpc[w] = "leave" /\ busy' = busy - 1 /\ wpc' = [wpc EXCEPT ![w] = "check"]
            /\ UNCHANGED <<ctr, task, active, kTaken, exec, best, found, processed, wctr, wtask, witem, asleep>> /\ Keep
End == mpc = "end" /\ UNCHANGED vars
Next == Issue \/ Return \/ Shut \/ Join \/ End \/ \E w \in W : Loop(w) \/ Wake(w) \/ Spurious(w) \/ Take(w) \/ Exec(w) \/ Report(w) \/ Leave(w)
Working(w) == wpc[w] \in {"take", "exec", "report", "leave"}
MinOf(S) == CHOOSE i \in S : \A j \in S : i <= j
\* nobody works outside a phase, and everybody who works, works on the current phase
NoStray == \A w \in W : Working(w) => mpc = "wait" /\ wctr[w] = ctr /\ wtask[w] = task
Once == \A i \in DOMAIN exec : exec[i] <= 1
\* when a parallel phase returns, all of it is done
AllDone == (mpc \in {"ready", "join", "end"} /\ exec # <<>> /\ accept = {} /\ ctr > 0) => \A i \in DOMAIN exec : exec[i] = 1 \/ DOMAIN exec = 0..(Steps - 1)
\* when a line search returns, it has found the largest accepted step (smallest exponent), or nothing if none is acceptable
Largest == (mpc # "wait" /\ accept # {}) => best = MinOf(accept)
NoneFound == (mpc # "wait" /\ accept = {}) => best = Steps
Counted == busy >= 0 /\ busy <= N
\* liveness under weak fairness of every thread: the main thread gets through all phases and the shutdown
Live == Init /\ [][Next]_vars /\ WF_vars(Issue \/ Return \/ Shut \/ Join) /\ \A w \in W : WF_vars(Loop(w) \/ Wake(w) \/ Take(w) \/ Exec(w) \/ Report(w) \/ Leave(w))
Terminates == <>(mpc = "end")
=============================================================================
