------------------------------- MODULE Switch -------------------------------
(* Mode sequences and switched systems (ct_core/switching, Switched*System).
   kind: 0 SwitchedControlledSystem, 1 SwitchedLinearSystem (continuous time, ticks of 1/4),
         2 SwitchedDiscreteControlledSystem, 3 SwitchedDiscreteLinearSystem (integer time).
   State: ts = boundaries of the sequence (ts[1] = start), ph = mode per phase, par = <<p, q>> of every subsystem
   (shared with objects built from it), c/hc = the controller's value / whether one is attached,
   o[1] = the switched system, o[2] = its clone.  A system snapshots the sequence when built; a clone snapshots
   everything, so nothing done to the original afterwards may be visible through it.                          *)
EXTENDS Integers, Sequences, FiniteSets

None == [on |-> FALSE, ts |-> <<0>>, ph |-> <<>>, own |-> FALSE, par |-> <<>>, c |-> 0, hc |-> FALSE]
Par0 == << <<1, 1>>, <<2, -1>>, <<-3, 2>> >>
S0 == [kind |-> 0, ts |-> <<0>>, ph |-> <<>>, par |-> Par0, c |-> 0, hc |-> FALSE, o |-> <<None, None>>]
OK(r) == [r |-> r, x |-> 0]

\* phase i (1-based) is active on [ts[i], ts[i+1]); before the start the first, after the end the last phase
PhaseIdx(ts, t) == LET n == Len(ts) - 1 IN
    IF t < ts[1] THEN 1
    ELSE IF t >= ts[n + 1] THEN n
    ELSE CHOOSE i \in 1..n : ts[i] <= t /\ t < ts[i + 1]
ModeAt(ob, t) == ob.ph[PhaseIdx(ob.ts, t)]

ParOf(s, k) == IF s.o[k].own THEN s.o[k].par ELSE s.par
HcOf(s, k) == IF s.o[k].own THEN s.o[k].hc ELSE s.hc
COf(s, k) == IF s.o[k].own THEN s.o[k].c ELSE s.c
AB(s, k, t) == LET m == ParOf(s, k)[ModeAt(s.o[k], t) + 1] IN [A |-> <<m[1], t, 0, m[1]>>, B |-> <<m[2], 1>>]
F(s, k, x1, x2, u, t) == LET M == AB(s, k, t) IN
    <<M.A[1] * x1 + M.A[2] * x2 + M.B[1] * u, M.A[3] * x1 + M.A[4] * x2 + M.B[2] * u>>

Exp(s, e) ==
    LET a == e.a IN
    CASE e.op \in {"new", "add", "mk", "clone", "set", "ctl"} -> OK(<<>>)
      [] e.op = "cnt" -> OK(<<Len(s.ph), Len(s.ph) - 1, s.ts[Len(s.ts)] - s.ts[1]>>)
      [] e.op = "at"  -> OK(<<s.ts[a[1] + 1], s.ts[a[1] + 2], s.ph[a[1] + 1]>>)
      [] e.op = "t"   -> OK(<<PhaseIdx(s.ts, a[1]) - 1, s.ph[PhaseIdx(s.ts, a[1])]>>)
      [] e.op = "ff"  -> OK(<<s.ph[1], s.ph[Len(s.ph)]>>)
      [] e.op = "sw"  -> OK(<<s.ph[a[1] + 1], s.ph[a[1] + 2], s.ts[a[1] + 2]>>)
      [] e.op = "swt" -> LET i == PhaseIdx(s.ts, a[1]) IN OK(<<s.ph[i], s.ph[i + 1], s.ts[i + 1]>>)
      [] e.op = "f"   -> OK(F(s, a[1], a[2], a[3], a[4], a[5]))
      [] e.op = "auto" -> OK(F(s, a[1], a[2], a[3], IF HcOf(s, a[1]) THEN COf(s, a[1]) ELSE 0, a[4]))
      [] e.op = "lin" -> LET M == AB(s, a[1], a[2]) IN OK(M.A \o M.B)

Nxt(s, e) ==
    LET a == e.a IN
    CASE e.op = "new" -> [S0 EXCEPT !.kind = a[1], !.ts = <<a[2]>>]
      [] e.op = "add" -> [s EXCEPT !.ph = Append(@, a[1]), !.ts = Append(@, @[Len(@)] + a[2])]
      [] e.op = "mk"  -> [s EXCEPT !.o[1] = [None EXCEPT !.on = TRUE, !.ts = s.ts, !.ph = s.ph], !.hc = (a[1] = 1)]
      [] e.op = "clone" -> [s EXCEPT !.o[2] = [on |-> TRUE, ts |-> s.o[1].ts, ph |-> s.o[1].ph, own |-> TRUE,
                                               par |-> s.par, c |-> s.c, hc |-> s.hc]]
      [] e.op = "set" -> [s EXCEPT !.par[a[1] + 1] = <<a[2], a[3]>>]
      [] e.op = "ctl" -> [s EXCEPT !.c = a[1]]
      [] OTHER -> s
Match(s, e) == e.x = Exp(s, e).x /\ e.r = Exp(s, e).r
=============================================================================
