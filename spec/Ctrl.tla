-------------------------------- MODULE Ctrl --------------------------------
(* Controllers and the closed loop (ct_core/control, ControlledSystem, SecondOrderSystem, LTISystem's loop, ControlSimulator).
   Controllers live in slots: 1 the original, 2 its clone, 3 the private copy inside a cloned system.
   kinds: "sf" StateFeedbackController (time in ticks of 1/4, data from a seed), "cc" ConstantController,
   "cf" ConstantStateFeedbackController, "no" none.  Control values are reported times 16.
   sys[1]/sys[2]: slot of the controller attached to the system / to its clone (0: none), -1: no such system.
   A slot is re-used only when no system holds it.  pid[1]/pid[2]: a PID controller and its clone.                                                             *)
EXTENDS Integers, Sequences

Dat(seed, j) == ((seed * 37 + j * 29 + j * j * 5) % 13) - 6
Vec(seed, o, i) == <<Dat(seed, o + 4 * i), Dat(seed, o + 4 * i + 1)>>
Mat(seed, o, i) == <<Dat(seed, o + 4 * i), Dat(seed, o + 4 * i + 1), Dat(seed, o + 4 * i + 2), Dat(seed, o + 4 * i + 3)>>
No == [k |-> "no"]
Grid(t0, dt, n) == [i \in 1..n |-> t0 + (i - 1) * dt]
\* an arbitrary grid whose gaps are 1, 2 or 4 ticks
Gap(seed, i) == LET g == Dat(seed, 500 + i) IN IF g < -2 THEN 1 ELSE IF g < 3 THEN 2 ELSE 4
RECURSIVE GridOf(_, _)
GridOf(seed, n) == IF n = 0 THEN <<>> ELSE IF n = 1 THEN <<Dat(seed, 499)>>
                   ELSE LET g == GridOf(seed, n - 1) IN Append(g, g[n - 1] + Gap(seed, n))
SF(ty, t0, dt, n, seed) ==
    [k |-> "sf", ty |-> ty, u |-> [i \in 1..n |-> Vec(seed, 0, i)], K |-> [i \in 1..n |-> Mat(seed, 100, i)],
     X |-> [i \in 1..(n + 1) |-> Vec(seed, 200, i)], tu |-> Grid(t0, dt, n), tk |-> Grid(t0, dt, n), tx |-> Grid(t0, dt, n + 1)]
PID0 == [on |-> FALSE, kp |-> 0, ki |-> 0, kd |-> 0, f |-> 1, im |-> 0, mx |-> 0, mn |-> 0, xd |-> 0, vd |-> 0, xp |-> 0, I |-> 0]
S0 == [c |-> <<No, No, No>>, sys |-> <<-1, -1>>, last |-> << <<0, 0>>, <<0, 0>> >>, pid |-> <<PID0, PID0>>,
       so |-> <<0, 0, 0>>, so2 |-> <<0, 0, 0>>]
OK(r) == [r |-> r, x |-> 0]
Thrown == [r |-> <<>>, x |-> 1]

\* value of a sampled signal at tick t, times 4 (component-wise)
At(d, ts, ty, t) ==
    LET n == Len(ts) IN
    IF t < ts[1] THEN [j \in 1..Len(d[1]) |-> 4 * d[1][j]]
    ELSE IF t >= ts[n] THEN [j \in 1..Len(d[1]) |-> 4 * d[n][j]]
    ELSE LET i == CHOOSE i \in 1..(n - 1) : ts[i] <= t /\ t < ts[i + 1] IN
         IF ty = 0 THEN [j \in 1..Len(d[1]) |-> 4 * d[i][j]]
         ELSE [j \in 1..Len(d[1]) |-> (4 * (d[i][j] * (ts[i + 1] - t) + d[i + 1][j] * (t - ts[i]))) \div (ts[i + 1] - ts[i])]
MV(M, v) == <<M[1] * v[1] + M[2] * v[2], M[3] * v[1] + M[4] * v[2]>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Sub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Sc(q, a) == <<q * a[1], q * a[2]>>
\* control action times 16, at state x (integers) and tick t
U(c, x, t) ==
    CASE c.k = "no" -> <<0, 0>>
      [] c.k = "cc" -> Sc(16, c.u)
      [] c.k = "cf" -> Add(Sc(16, c.u), Sc(16, MV(c.K, Sub(x, c.X))))
      [] c.k = "sf" -> Add(Sc(4, At(c.u, c.tu, c.ty, t)), MV(At(c.K, c.tk, c.ty, t), Sub(Sc(4, x), At(c.X, c.tx, c.ty, t))))
Un(c, x, n) == CASE c.k = "cc" -> Sc(16, c.u)
                 [] c.k = "sf" -> Sc(16, Add(c.u[n], MV(c.K[n], Sub(x, c.X[n]))))
SlotU(s, k, x, t) == IF k = 0 THEN <<0, 0>> ELSE U(s.c[k], x, t)
\* the plant: x1' = x2 + u1, x2' = -2 x1 + t x2 + u2 (t in ticks), times 16
F(x, t, u) == <<16 * x[2] + u[1], -32 * x[1] + 16 * t * x[2] + u[2]>>

Clamp(v, lo, hi) == IF v > hi THEN hi ELSE IF v < lo THEN lo ELSE v
\* PID: all outputs times 4; sampling time 1/f, f in {1, 2, 4}
NewI(p, e) == Clamp(p.I + (p.ki * e * 4) \div p.f, -4 * p.im, 4 * p.im)
PidU(p, x, hasv, v) == LET e == p.xd - x
                           D == IF hasv THEN p.kd * (p.vd - v) ELSE p.kd * (p.vd - (x - p.xp) * p.f)
                           raw == 4 * p.kp * e + NewI(p, e) + 4 * D
                       IN LET a == IF raw > 4 * p.mx THEN 4 * p.mx ELSE raw IN IF a < 4 * p.mn THEN 4 * p.mn ELSE a

CeilDiv(a, b) == (a + b - 1) \div b
Exp(s, e) ==
    LET a == e.a IN
    CASE e.op = "upd" -> IF a[3] = 0 THEN OK(<<>>) ELSE Thrown
      [] e.op = "u" -> OK(U(s.c[a[1]], <<a[2], a[3]>>, a[4]))
      [] e.op = "un" -> OK(Un(s.c[a[1]], <<a[2], a[3]>>, a[4] + 1))
      [] e.op = "len" -> LET c == s.c[a[1]] IN OK(<<Len(c.u), Len(c.K), Len(c.X)>> \o c.tx)
      [] e.op = "ext" -> LET c == s.c[a[1]] IN   \* a[2] = seed of the state trajectory, a[3] = its length
            OK(<<a[3] - 1>> \o [j \in 1..(3 * (a[3] - 1)) |->
                LET i == (j - 1) \div 3 + 1
                    w == Un(c, Vec(a[2], 300, i), i)
                IN IF (j - 1) % 3 = 0 THEN a[2] + 3 * (i - 1) ELSE w[(j - 1) % 3]])
      [] e.op = "dyn" -> LET x == <<a[2], a[3]>> IN OK(F(x, a[4], SlotU(s, s.sys[a[1]], x, a[4])))
      [] e.op = "cdyn" -> OK(F(<<a[2], a[3]>>, a[4], Sc(16, <<a[5], a[6]>>)))
      [] e.op = "last" -> OK(s.last[a[1]])
      [] e.op = "pu" -> OK(<<PidU(s.pid[a[1]], a[2], FALSE, 0)>>)
      [] e.op = "pv" -> OK(<<PidU(s.pid[a[1]], a[2], TRUE, a[3])>>)
      [] e.op = "step" -> OK(<<IF a[3] >= a[2] THEN a[1] ELSE 0>>)
      [] e.op = "sod" -> LET p == IF a[1] = 1 THEN s.so ELSE s.so2 IN   \* x, v, u -> derivative;  p = <<w^2, 2 zeta w, g>>
            OK(<<a[3], p[3] * p[1] * a[4] - p[2] * a[3] - p[1] * a[2]>>)
      [] e.op = "soq" -> OK(<<(IF a[1] = 1 THEN s.so ELSE s.so2)[4]>>)   \* physical parameters?
      [] e.op = "sim" ->    \* sim_dt, control_dt (microseconds), iterations, of a copy?, control set on this simulator's own controller
            \* -> state after every iteration (x' = 1 + u), evaluations
            OK([i \in 1..a[3] |-> i * a[2] * (1 + a[5])] \o <<a[3] * CeilDiv(a[2], a[1])>>)
      [] OTHER -> OK(<<>>)

SetC(s, k, c) == [s EXCEPT !.c[k] = c]
Nxt(s, e) ==
    LET a == e.a IN
    IF e.x = 1 THEN s ELSE
    CASE e.op = "sf" -> SetC(s, 1, SF(a[1], a[2], a[3], a[4], a[5]))
      [] e.op = "cc" -> SetC(s, 1, [k |-> "cc", u |-> <<a[1], a[2]>>])
      [] e.op = "cf" -> SetC(s, 1, [k |-> "cf", u |-> Vec(a[1], 0, 1), X |-> Vec(a[1], 200, 1), K |-> Mat(a[1], 100, 1)])
      [] e.op = "setu" -> SetC(s, a[1], [s.c[a[1]] EXCEPT !.u = <<a[2], a[3]>>])
      [] e.op = "law" -> SetC(s, a[1], [k |-> "cf", u |-> Vec(a[2], 0, 1), X |-> Vec(a[2], 200, 1),
                                        K |-> IF a[3] = 1 THEN Mat(a[2], 100, 1) ELSE <<0, 0, 0, 0>>])
      [] e.op = "upd" -> LET n == a[4] IN    \* slot, seed, mismatch, n
            SetC(s, a[1], [s.c[a[1]] EXCEPT !.u = [i \in 1..n |-> Vec(a[2], 0, i)], !.K = [i \in 1..n |-> Mat(a[2], 100, i)],
                !.X = [i \in 1..(n + 1) |-> Vec(a[2], 200, i)], !.tx = GridOf(a[2], n + 1),
                !.tu = SubSeq(GridOf(a[2], n + 1), 1, n), !.tk = SubSeq(GridOf(a[2], n + 1), 1, n)])
      [] e.op = "edit" -> SetC(s, a[1], [s.c[a[1]] EXCEPT !.u[a[2] + 1] = <<a[3], a[4]>>])
      [] e.op = "shift" -> SetC(s, a[1], [s.c[a[1]] EXCEPT !.tx = [i \in 1..Len(@) |-> @[i] - a[2]]])
      [] e.op = "clone" -> SetC(s, 2, s.c[1])
      [] e.op = "sys" -> [s EXCEPT !.sys = <<a[1], -1>>, !.last[1] = <<0, 0>>]
      [] e.op = "att" -> [s EXCEPT !.sys[1] = a[1]]
      [] e.op = "scl" -> [s EXCEPT !.sys[2] = IF s.sys[1] = 0 THEN 0 ELSE 3, !.c[3] = IF s.sys[1] = 0 THEN No ELSE s.c[s.sys[1]],
                                  !.last[2] = s.last[1]]
      [] e.op = "dyn" -> LET x == <<a[2], a[3]>> IN [s EXCEPT !.last[a[1]] = SlotU(s, s.sys[a[1]], x, a[4])]
      [] e.op = "pid" -> [s EXCEPT !.pid[1] = [on |-> TRUE, kp |-> a[1], ki |-> a[2], kd |-> a[3], f |-> a[4], im |-> a[5],
                                               mx |-> a[6], mn |-> a[7], xd |-> a[8], vd |-> a[9], xp |-> 0, I |-> 0]]
      [] e.op = "ppar" -> [s EXCEPT !.pid[a[1]] = [@ EXCEPT !.kp = a[2], !.ki = a[3], !.kd = a[4], !.f = a[5], !.im = a[6], !.mx = a[7], !.mn = a[8]]]
      [] e.op = "pcl" -> [s EXCEPT !.pid[2] = s.pid[1]]
      [] e.op = "pset" -> [s EXCEPT !.pid[a[1]].xd = a[2]]
      [] e.op = "psetv" -> [s EXCEPT !.pid[a[1]].xd = a[2], !.pid[a[1]].vd = a[3]]
      [] e.op = "pini" -> [s EXCEPT !.pid[a[1]].xp = a[2]]
      [] e.op = "prst" -> [s EXCEPT !.pid[a[1]].xp = 0, !.pid[a[1]].I = 0]
      [] e.op \in {"pu", "pv"} -> [s EXCEPT !.pid[a[1]].I = NewI(s.pid[a[1]], s.pid[a[1]].xd - a[2]), !.pid[a[1]].xp = a[2]]
      [] e.op \in {"so", "sos"} -> [s EXCEPT !.so = <<a[1] * a[1], 2 * a[2] * a[1], a[3], IF a[1] >= 0 /\ a[2] >= 0 /\ a[3] > 0 THEN 1 ELSE 0>>]      \* frequency, damping ratio, gain
      [] e.op = "sok" -> [s EXCEPT !.so = <<a[1] * a[1], a[3], a[4], IF a[3] >= 0 /\ a[4] > 0 THEN 1 ELSE 0>>]   \* spring w^2 m, mass m, damper c m, gain (a = w, m, c, g)
      [] e.op = "socl" -> [s EXCEPT !.so2 = s.so]
      [] OTHER -> s
Match(s, e) == e.x = Exp(s, e).x /\ e.r = Exp(s, e).r
=============================================================================
