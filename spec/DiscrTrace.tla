---- MODULE DiscrTrace ----
(* Trace validation: is every session recorded from the real code (one JSON line each, file $TRACE) a behaviour of
   Discr?  Prints ACCEPT sid, or REJECT sid step expectation. Written by mktrace.py. *)
EXTENDS Discr, TLC, Json, IOUtils
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sid, l, st
TInit == sid \in 1..Len(Sessions) /\ l = 0 /\ st = S0
TNext ==
    LET ev == Sessions[sid].ev IN
    /\ l >= 0
    /\ UNCHANGED sid
    /\ IF l = Len(ev)
       THEN PrintT("ACCEPT " \o ToString(sid)) /\ l' = -1 /\ UNCHANGED st
       ELSE LET e == ev[l + 1] IN
            IF Match(st, e) THEN l' = l + 1 /\ st' = Nxt(st, e)
            ELSE /\ PrintT("REJECT " \o ToString(sid) \o " " \o ToString(l + 1) \o " expected " \o ToString(Exp(st, e)))
                 /\ l' = -2 /\ UNCHANGED st
====
