--------------------------------- MODULE Mpc ---------------------------------
(* Model predictive control: clock, horizon strategy, warm start, forward prediction, run protocol (MPC, MpcTimeKeeper,
   MpcTimeHorizon, StateFeedbackPolicyHandler).  Time in ticks of 1/8 s; the controller's time step dt is 2 ticks.
   A policy is [u, x, t]: controls, reference states, time stamps of the controls (the references have one more). *)
EXTENDS Integers, Sequences
DT == 2
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
\* settings: <<mode, minT, fixed delay, additional delay, delay multiplier in halves, measure, external, predict, truncate, cold,
\* method of prediction (0 Euler, 1 Runge-Kutta), its step>>
Steps(T) == Max(1, (T + 1) \div 2)                     \* lround(T / dt) for T >= 0
Pol(seed, n) == [u |-> [i \in 1..n |-> 100 * seed + i], x |-> [i \in 1..(n + 1) |-> 1000 * seed + i], t |-> [i \in 1..n |-> DT * (i - 1)],
                 K |-> [i \in 1..n |-> 10 * seed + i]]
NoPol == [u |-> <<>>, x |-> <<>>, t |-> <<>>, K |-> <<>>]
S0 == [on |-> FALSE, set |-> <<1, 8, 0, 0, 2, 0, 1, 0, 0, 0, 0, 1>>, T0 |-> 0, T |-> 0, cur |-> NoPol, prev |-> NoPol, init |-> NoPol,
       cold |-> FALSE, first |-> TRUE, kfirst |-> TRUE, clk |-> 0, ilast |-> 0, ifirst |-> 0, elast |-> 0, efirst |-> 0,
       dly |-> 0, fs |-> 0, fe |-> 0, fin |-> FALSE, custom |-> <<>>, mx |-> 0, sum |-> 0]
Mode(s) == s.set[1]
Ext(s) == s.set[7] = 1
\* last index (0-based) whose stamp is not after q, 0 before the first
Idx(t, q) == LET J == {i \in 1..Len(t) : t[i] <= q} IN IF J = {} THEN 0 ELSE (CHOOSE i \in J : \A j \in J : j <= i) - 1
Drop(p, n) == [u |-> SubSeq(p.u, n + 1, Len(p.u)), x |-> SubSeq(p.x, n + 1, Len(p.x)), K |-> SubSeq(p.K, n + 1, Len(p.K)),
               t |-> [i \in 1..(Len(p.t) - n) |-> p.t[i + n] - n * DT]]
RECURSIVE Grow(_, _)
Grow(p, n) == IF Len(p.u) >= n THEN p ELSE
    Grow([u |-> Append(p.u, p.u[Len(p.u)]), x |-> Append(p.x, p.x[Len(p.x)]), K |-> Append(p.K, p.K[Len(p.K)]), t |-> Append(p.t, p.t[Len(p.t)] + DT)], n)
Cut(p, n) == [u |-> SubSeq(p.u, 1, n), x |-> SubSeq(p.x, 1, n + 1), t |-> SubSeq(p.t, 1, n), K |-> SubSeq(p.K, 1, n)]
Shift(p, q) == Min(Idx(p.t, q), Len(p.u) - 1)
Warm(p, q, T) == LET r == Drop(p, Shift(p, q)) n == Steps(T) IN IF Len(r.u) >= n THEN Cut(r, n) ELSE Grow(r, n)
Flat(p) == <<Len(p.u)>> \o p.u \o p.K \o p.t \o p.x

\* ---- timings computed when an iteration is prepared at external time e
SinceLast(s, e) == IF s.kfirst THEN 0 ELSE IF Ext(s) THEN e - s.elast ELSE s.clk - s.ilast
SinceFirst(s, e) == IF s.kfirst THEN 0 ELSE IF Ext(s) THEN e - s.efirst ELSE s.clk - s.ifirst
Delay(s) == s.set[4] + (IF s.set[6] = 1 THEN (s.set[5] * s.dly) \div 2 ELSE s.set[3])
Start(s, e) == Min(SinceLast(s, e), s.T)
Stop(s, e) == Min(IF s.kfirst THEN 0 ELSE SinceLast(s, e) + Delay(s), s.T)
Left(s, e) == Max(0, s.T0 - (SinceFirst(s, e) + Stop(s, e)))
NewT(s, e) == IF s.custom # <<>> THEN s.custom[1] ELSE
    CASE Mode(s) = 1 -> s.T0
      [] Mode(s) = 0 -> Left(s, e)
      [] Mode(s) = 2 -> Max(s.set[2], Left(s, e))
      [] Mode(s) = 3 -> Min(s.set[2], Left(s, e))
Reached(s, e) == IF s.custom # <<>> THEN s.custom[2] = 1 ELSE
    CASE Mode(s) = 1 -> FALSE
      [] Mode(s) = 0 -> NewT(s, e) = 0
      [] Mode(s) = 2 -> NewT(s, e) = s.set[2]
      [] Mode(s) = 3 -> NewT(s, e) = 0
\* a fresh run resets the clocks (initialize)
Fresh(s) == IF s.first THEN [s EXCEPT !.kfirst = TRUE, !.dly = 0, !.mx = 0, !.sum = 0, !.fin = FALSE] ELSE s
Prep(s0, e) == LET s == Fresh(s0) T == NewT(s, e) IN
    [s EXCEPT !.fs = Start(s, e), !.fe = Stop(s, e), !.T = T, !.fin = Reached(s, e),
              !.cur = IF s.cold THEN s.init ELSE Warm(s.cur, Stop(s, e), T)]
\* ---- forward prediction (plant x' = u; x in units of 1/96): method m, n steps of h ticks from q on, stages at half ticks
UAt(p, q2) == p.u[Idx([i \in 1..Len(p.t) |-> 2 * p.t[i]], q2) + 1]
RECURSIVE Fwd(_, _, _, _, _, _)
Fwd(p, x, q, n, m, h) == IF n <= 0 THEN x ELSE
    Fwd(p, x + (IF m = 0 THEN 12 * h * UAt(p, 2 * q) ELSE 2 * h * (UAt(p, 2 * q) + 4 * UAt(p, 2 * q + h) + UAt(p, 2 * (q + h)))), q + h, n - 1, m, h)
FwdN(s) == LET w == s.fe - s.fs h == s.set[12] IN IF w <= 0 THEN 0 ELSE (2 * w + h) \div (2 * h)      \* lround
\* fin: <<x, x_ts, solve time, ok, seed, third-party control or -1>>
XStart(s, a) == IF s.first \/ s.set[8] = 0 THEN 96 * a[1]
                ELSE IF a[6] >= 0 THEN 96 * a[1] + 12 * s.set[12] * FwdN(s) * a[6] ELSE Fwd(s.prev, 96 * a[1], s.fs, FwdN(s), s.set[11], s.set[12])
DtP(s, a) == IF s.kfirst THEN 0 ELSE IF Ext(s) THEN a[2] - s.elast ELSE (s.clk + a[3]) - s.ilast
Trunc(s, a, p) == IF a[4] = 1 /\ s.set[9] = 1 /\ ~s.first /\ DtP(s, a) > s.fe /\ ~s.cold THEN Shift(p, DtP(s, a) - s.fe) ELSE 0
NewPol(s, a) == IF a[4] = 1 THEN LET p == Pol(a[5], Steps(s.T)) IN Drop(p, Trunc(s, a, p)) ELSE s.cur
Meas(s, a) == IF Ext(s) THEN 0 ELSE a[3]
PolTs(s, a) == a[2] + (IF a[4] = 1 THEN (s.fe - s.fs) + DT * Trunc(s, a, Pol(a[5], Steps(s.T))) ELSE 0) + (IF s.first THEN Meas(s, a) ELSE 0)
Fin(s, a) == LET p == NewPol(s, a) c == s.clk + a[3] IN
    [s EXCEPT !.cur = p, !.prev = p, !.clk = c, !.dly = Meas(s, a), !.ilast = IF Ext(s) THEN @ ELSE c, !.elast = IF Ext(s) THEN a[2] ELSE @,
              !.ifirst = IF s.kfirst /\ ~Ext(s) THEN c ELSE @, !.efirst = IF s.kfirst /\ Ext(s) THEN a[2] ELSE @,
              !.kfirst = FALSE, !.first = FALSE, !.mx = Max(@, Meas(s, a)), !.sum = @ + Meas(s, a)]
Bad(set) == set[6] = 1 /\ set[7] = 1

OK(r) == [r |-> r, x |-> 0]
Err == [r |-> <<>>, x |-> 1]
Bit(b) == IF b THEN 1 ELSE 0
\* what a preparation hands to the solver: horizon, warm start, then the preparation itself; arguments seen by a custom strategy
PrepObs(s0, e) == LET s == Prep(s0, e) f == Fresh(s0) IN
    <<s.T, Bit(s.fin)>> \o (IF s.custom # <<>> THEN <<SinceFirst(f, e), Stop(f, e)>> ELSE <<-1, -1>>) \o Flat(s.cur)
Exp(s, e) ==
    LET a == e.a IN
    CASE e.op = "new" -> IF Bad(SubSeq(a, 1, 12)) THEN Err ELSE OK(<<>>)
      [] e.op = "upd" -> IF Bad(SubSeq(a, 1, 12)) THEN Err ELSE OK(<<>>)
      [] e.op = "prep" -> OK(PrepObs(s, a[1]))
      [] e.op = "fin" -> OK(<<XStart(s, a), a[4], PolTs(s, a)>> \o Flat(NewPol(s, a)))
      [] e.op = "reached" -> OK(<<Bit(s.fin)>>)
      [] e.op = "since" -> OK(<<SinceFirst(s, a[1])>>)
      [] e.op = "warm" -> OK(Flat(Warm(Pol(a[1], a[2]), a[3], a[4])))
      [] e.op = "cut" -> LET p == Pol(a[1], a[2]) n == Shift(p, a[3]) IN OK(<<DT * n>> \o Flat(Drop(p, n)))
      [] OTHER -> OK(<<>>)
\* after a failed solve the time stamp of the (warm-started) policy is not specified
Match(s, e) == e.x = Exp(s, e).x /\ LET q == Exp(s, e).r IN
    IF e.op = "fin" /\ e.a[4] = 0 THEN Len(e.r) = Len(q) /\ \A i \in 1..Len(q) : i = 3 \/ e.r[i] = q[i] ELSE e.r = q
Nxt(s, e) ==
    LET a == e.a IN
    CASE e.op = "new" -> IF Bad(SubSeq(a, 1, 12)) THEN s
            ELSE [S0 EXCEPT !.on = TRUE, !.set = SubSeq(a, 1, 12), !.T0 = a[13], !.T = a[13], !.cold = a[10] = 1, !.clk = s.clk,
                     !.cur = Pol(a[14], a[15]), !.prev = Pol(a[14], a[15]), !.init = Pol(a[14], a[15])]
      [] e.op = "upd" -> IF Bad(SubSeq(a, 1, 12)) THEN s ELSE [s EXCEPT !.set = SubSeq(a, 1, 12)]
      [] e.op = "clk" -> [s EXCEPT !.clk = @ + a[1]]
      [] e.op = "prep" -> [Prep(s, a[1]) EXCEPT !.clk = @ + a[2]]
      [] e.op = "fin" -> Fin(s, a)
      [] e.op = "reset" -> [s EXCEPT !.first = TRUE, !.kfirst = TRUE, !.T0 = a[1], !.T = a[1], !.fin = FALSE, !.dly = 0, !.mx = 0, !.sum = 0]
      [] e.op = "guess" -> LET p == Pol(a[1], a[2]) IN [s EXCEPT !.cur = p, !.prev = p, !.init = p]
      [] e.op = "strat" -> [s EXCEPT !.custom = a]
      [] OTHER -> s
=============================================================================
