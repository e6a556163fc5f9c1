-------------------------------- MODULE Integ --------------------------------
(* Integration of an ODE over a time grid with event handlers (ct_core/integration).
   The system is  x1' = x2 + p t,  x2' = q + u,  with the controller u = r t, on which every method is exactly
   computable: time in ticks of 1/2 (sub-steps in ticks of 1/4), states times 192.
   Types: 0 EULER 1 RK4 2 MODIFIED_MIDPOINT 3 ODE45 4 RK5VARIABLE 5 RK78 6 BULIRSCHSTOER 7 EULERCT 8 RK4CT.
   State: ty (type), mx (limit of the max-steps handler), kl (observation at which an event requests termination,
   0 = never), rec (sub-step recorder enabled).  Handlers, in order: conditional logger A (acts on even ticks),
   sub-step logger, sub-step recorder, terminator request, kill handler, max-steps handler.
   A run never depends on earlier runs, finished or aborted.                                                      *)
EXTENDS Integers, Sequences

SC == 192
S0 == [ty |-> 7, mx |-> 1000, kl |-> 0, rec |-> 1]
CT(ty) == ty \in {7, 8}            \* own steppers: observe after each step; odeint's also observe the initial state
Abs(v) == IF v < 0 THEN -v ELSE v

\* right-hand side: times 192, at time tq (ticks of 1/4)
Rhs(P, X, tq) == <<X[2] + 48 * P.p * tq, SC * P.q + 48 * P.r * tq>>
AddS(X, num, K, den) == <<X[1] + (num * K[1]) \div den, X[2] + (num * K[2]) \div den>>
\* one step from X at tick T with step D ticks: [x |-> new state, sub |-> evaluated points <<tq, x1, x2>>]
Euler(P, X, T, D) == [x |-> AddS(X, D, Rhs(P, X, 2 * T), 2), sub |-> << <<2 * T, X[1], X[2]>> >>]
RK4(P, X, T, D) ==
    LET tq == 2 * T
        k1 == Rhs(P, X, tq)
        y2 == AddS(X, D, k1, 4)
        k2 == Rhs(P, y2, tq + D)
        y3 == AddS(X, D, k2, 4)
        k3 == Rhs(P, y3, tq + D)
        y4 == AddS(X, D, k3, 2)
        k4 == Rhs(P, y4, tq + 2 * D)
        w  == <<k1[1] + 2 * k2[1] + 2 * k3[1] + k4[1], k1[2] + 2 * k2[2] + 2 * k3[2] + k4[2]>>
    IN [x |-> AddS(X, D, w, 12),
        sub |-> << <<tq, X[1], X[2]>>, <<tq + D, y2[1], y2[2]>>, <<tq + D, y3[1], y3[2]>>, <<tq + 2 * D, y4[1], y4[2]>> >>]
StepOf(ty, P, X, T, D) == IF ty \in {0, 7} THEN Euler(P, X, T, D) ELSE RK4(P, X, T, D)
\* the exact solution after time D/2 (polynomial of degree 3): what every method of order >= 3 has to deliver
Exact(P, X, T, D) == <<X[1] + (X[2] * D) \div 2 + 24 * P.q * D * D + 12 * P.r * T * D * D + 4 * P.r * D * D * D
                          + 48 * P.p * T * D + 24 * P.p * D * D,
                       X[2] + 96 * P.q * D + 48 * P.r * T * D + 24 * P.r * D * D>>

(* one observation at tick T, number j *)
Observe(s, m, X, T) ==
    LET j == m.obs + 1
        m1 == [m EXCEPT !.obs = j, !.log = Append(@, <<T, X[1], X[2]>>), !.acted = IF T % 2 = 0 THEN Append(@, T) ELSE @]
    IN [m1 EXCEPT !.thrown = (s.kl # 0 /\ j >= s.kl) \/ j > s.mx]
RECURSIVE Go(_, _, _, _, _, _)
Go(s, P, m, T, D, n) ==
    IF n = 0 \/ m.thrown THEN m
    ELSE LET z == StepOf(s.ty, P, m.x, T, D)
             m1 == [m EXCEPT !.x = z.x, !.sub = @ \o z.sub]
         IN Go(s, P, Observe(s, m1, z.x, T + D), T + D, D, n - 1)
Run(s, P, X0, T0, D, n) ==
    LET m0 == [x |-> X0, obs |-> 0, log |-> <<>>, acted |-> <<>>, sub |-> <<>>, thrown |-> FALSE]
    IN Go(s, P, IF CT(s.ty) THEN m0 ELSE Observe(s, m0, X0, T0), T0, D, n)

RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Cat(Tail(q))
\* a[1] kind: 0/1 n steps with/without log, 2/3 constant step until T1;  x1 x2 p q r T0 D N|T1
RunObs(s, a) ==
    LET P == [p |-> a[4], q |-> a[5], r |-> a[6]]
        n == IF a[1] < 2 THEN a[9] ELSE (a[9] - a[7]) \div a[8]
        m == Run(s, P, <<SC * a[2], SC * a[3]>>, a[7], a[8], n)
        sees == s.ty \in {0, 1, 7, 8}            \* methods whose sub-steps are specified
        numeric == s.ty # 2
        St(X) == IF numeric THEN X ELSE <<0, 0>>
    IN [x |-> IF m.thrown THEN 1 ELSE 0,
        r |-> (IF m.thrown THEN <<>> ELSE St(m.x)) \o
              (IF m.thrown \/ a[1] \in {1, 3} THEN <<>>
               ELSE <<Len(m.log)>> \o Cat([i \in 1..Len(m.log) |-> <<m.log[i][1]>> \o St(<<m.log[i][2], m.log[i][3]>>)])) \o
              <<m.obs, Len(m.acted)>> \o m.acted \o
              (IF sees THEN <<Len(m.sub)>> \o Cat(m.sub) \o
                  (IF s.rec = 1 THEN <<Len(m.sub)>> \o Cat([i \in 1..Len(m.sub) |-> <<m.sub[i][2], m.sub[i][3], a[6] * m.sub[i][1]>>])
                   ELSE <<0>>)
               ELSE <<>>)]
\* integrate_adaptive / integrate_times: the exact solution at the end / at each requested time
RECURSIVE At(_, _, _, _)
At(P, X, T, ts) == IF ts = <<>> THEN <<>> ELSE LET Y == Exact(P, X, T, ts[1] - T) IN Y \o At(P, Y, ts[1], Tail(ts))
Exp(s, e) ==
    LET a == e.a IN
    CASE e.op \in {"type", "cfg"} -> [x |-> 0, r |-> <<>>]
      [] e.op = "run" -> IF CT(s.ty) /\ a[1] >= 2 THEN [x |-> 1, r |-> <<0, 0, 0, 0>>] ELSE RunObs(s, a)
      [] e.op = "adapt" -> IF CT(s.ty) THEN [x |-> 1, r |-> <<>>]
                           ELSE [x |-> 0, r |-> <<1, a[7], a[8]>> \o Exact([p |-> a[4], q |-> a[5], r |-> a[6]], <<SC * a[2], SC * a[3]>>, a[7], a[8] - a[7])]
      [] e.op = "times" -> IF CT(s.ty) THEN [x |-> 1, r |-> <<>>]
                           ELSE [x |-> 0, r |-> LET n == Len(a) - 6  ev == SelectSeq(SubSeq(a, 7, Len(a)), LAMBDA T : T % 2 = 0)
                                             IN <<1, n, 0, n, n, Len(ev)>> \o ev \o <<n>> \o
                                   At([p |-> a[4], q |-> a[5], r |-> a[6]], <<SC * a[2], SC * a[3]>>, a[7], SubSeq(a, 7, Len(a)))]
      \* number of steps with error tolerances 1e-3, 1e-6, 1e-10 on x' = x: then with a tight relative and a tight absolute one on a large state: expectation is an order, see Match
      [] e.op = "tol" -> [x |-> 0, r |-> <<1, 2, 3, 2, 1>>]
      \* symplectic integrators, positions/velocities times 64 (see Sym)
      [] e.op = "sym" -> [x |-> 0, r |-> <<>>]
(* symplectic Euler: pos' = v + c, vel' = k pos + u; pos first, then velocity with the new position; D ticks of 1/2 *)
RECURSIVE SymGo(_, _, _, _, _)
SymGo(a, X, T, n, acc) ==   \* X times 4^n scaling kept at 4096
    LET acc1 == acc \o <<T, X[1], X[2]>> IN
    IF n = 0 THEN acc1
    ELSE LET pos == X[1] + (a[6] * (X[2] + 4096 * a[3])) \div 2
             vel == X[2] + (a[6] * (a[4] * pos + 4096 * a[5])) \div 2
         IN SymGo(a, <<pos, vel>>, T + a[6], n - 1, acc1)
\* a = <<x1, x2, c, k, u, D, n, T0>>
SymObs(a) == SymGo(a, <<4096 * a[1], 4096 * a[2]>>, a[8], a[7], <<>>)

Nxt(s, e) ==
    CASE e.op = "type" -> [s EXCEPT !.ty = e.a[1]]
      [] e.op = "cfg" -> [s EXCEPT !.mx = e.a[1], !.kl = e.a[2], !.rec = e.a[3]]
      [] OTHER -> s
Close(u, v) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : Abs(u[i] - v[i]) <= 1
Match(s, e) ==
    CASE e.op = "tol" -> e.x = 0 /\ e.r[1] < e.r[2] /\ e.r[2] < e.r[3] /\ e.r[5] < e.r[4]
      [] e.op = "sym" -> e.x = 0 /\ e.r = SymObs(e.a)
      [] e.op \in {"adapt", "times"} -> e.x = Exp(s, e).x /\ Close(e.r, Exp(s, e).r)
      [] OTHER -> e.x = Exp(s, e).x /\ e.r = Exp(s, e).r
==============================================================================
