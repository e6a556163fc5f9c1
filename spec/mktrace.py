#!/usr/bin/env python3
"""Writes <Spec>Trace.tla, the trace-validation wrapper every specification gets (kept identical on purpose)."""
import sys
T = '''---- MODULE %(m)sTrace ----
(* Trace validation: is every session recorded from the real code (one JSON line each, file $TRACE) a behaviour of
   %(m)s?  Prints ACCEPT sid, or REJECT sid step expectation. Written by mktrace.py. *)
EXTENDS %(m)s, TLC, Json, IOUtils
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sid, l, st
TInit == sid \\in 1..Len(Sessions) /\\ l = 0 /\\ st = S0
TNext ==
    LET ev == Sessions[sid].ev IN
    /\\ l >= 0
    /\\ UNCHANGED sid
    /\\ IF l = Len(ev)
       THEN PrintT("ACCEPT " \\o ToString(sid)) /\\ l' = -1 /\\ UNCHANGED st
       ELSE LET e == ev[l + 1] IN
            IF Match(st, e) THEN l' = l + 1 /\\ st' = Nxt(st, e)
            ELSE /\\ PrintT("REJECT " \\o ToString(sid) \\o " " \\o ToString(l + 1) \\o " expected " \\o ToString(Exp(st, e)))
                 /\\ l' = -2 /\\ UNCHANGED st
====
'''
for m in sys.argv[1:]:
    m, _, p = m.partition(':')        # Name:X for operators XExp, XNxt, XMatch and initial state X0
    t = T % dict(m=m)
    if p: t = t.replace('= S0', '= %s0' % p).replace('Match(', p + 'Match(').replace('Nxt(', p + 'Nxt(').replace('Exp(', p + 'Exp(')
    open(m + 'Trace.tla', 'w').write(t)
