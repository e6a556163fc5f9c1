------------------------------- MODULE Robot -------------------------------
(* The joint layer of the robot part (ct_rbd): joint states and their limits, the point-to-point trajectory generators,
   the joint position PID, actuator dynamics, the selection matrix, pseudo-inverse joint velocities, the choice among
   inverse kinematics solutions, per-link data maps.
   Three joints in joint states (quarter units), two in controllers, actuators and the arm generator.
   Generators: positions in 1/16, times in 1/64; reported are positions times 8192, velocities times 64.             *)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE 1
Bool(b) == IF b THEN 1 ELSE 0
OK(r) == [r |-> r, x |-> 0]
Thrown == [r |-> <<>>, x |-> 1]
Sub3(a, i) == SubSeq(a, i, i + 2)

----------------------------------------------------------------------------
\* point-to-point generator g = <<x0, xT, v, a>>
Dist(g) == Abs(g[2] - g[1])
Hold(g) == 16 * g[3] * g[3] < g[4] * Dist(g)                     \* the cruising speed is reached
\* time of the acceleration phase; without cruising, distance = a s^2 with s the time in quarters
T0(g) == IF Hold(g) THEN (64 * g[3]) \div g[4] ELSE 16 * (CHOOSE s \in 0..64 : g[4] * s * s = Dist(g))
\* total time
Tot(g) == IF Hold(g) THEN T0(g) + (4 * Dist(g)) \div g[3] ELSE 2 * T0(g)
Feasible(g) == IF Hold(g) THEN (64 * g[3]) % g[4] = 0 /\ (4 * Dist(g)) % g[3] = 0 ELSE \E s \in 0..64 : g[4] * s * s = Dist(g)
\* position times 8192 and velocity times 64 at time t
Pos(g, t) == LET d == Sgn(g[2] - g[1]) t0 == T0(g) T == Tot(g) x0 == 512 * g[1] xT == 512 * g[2] IN
    IF t >= T THEN xT
    ELSE IF t <= t0 THEN x0 + d * g[4] * t * t
    ELSE IF t >= T - t0 THEN xT - d * g[4] * (T - t) * (T - t)
    ELSE x0 + d * (g[4] * t0 * t0 + 128 * g[3] * (t - t0))
Vel(g, t) == LET d == Sgn(g[2] - g[1]) t0 == T0(g) T == Tot(g) IN
    IF t >= T THEN 0 ELSE IF t <= t0 THEN d * g[4] * t ELSE IF t >= T - t0 THEN d * g[4] * (T - t) ELSE d * 64 * g[3]
NoGen == <<0, 0, 1, 1>>
Max(a, b) == IF a > b THEN a ELSE b
\* both joints of an arm: a = start, end, sampling time
ArmG(m, a, j) == <<a[j], a[2 + j], m[j], m[2 + j]>>
ArmN(m, a) == LET T == Max(Tot(ArmG(m, a, 1)), Tot(ArmG(m, a, 2))) IN (2 * T + a[5]) \div (2 * a[5]) + 1
RECURSIVE Arm(_, _, _, _)
Arm(m, a, n, k) == IF k = n THEN <<>> ELSE LET t == k * a[5] g == ArmG(m, a, 1) h == ArmG(m, a, 2) IN
    <<t, Pos(g, t), Pos(h, t), Vel(g, t), Vel(h, t)>> \o Arm(m, a, n, k + 1)

----------------------------------------------------------------------------
\* joint position PID (outputs times 4, sampling time 1/f)
Clamp(v, lo, hi) == IF v > hi THEN hi ELSE IF v < lo THEN lo ELSE v
Big == 90000000
NewI(p, e) == Clamp(p.I + (p.ki * e * 4) \div p.f, -4 * p.im, 4 * p.im)
PidU(p, x, v) == Clamp(4 * p.kp * (p.xd - x) + NewI(p, p.xd - x) + 4 * p.kd * (p.vd - v), 4 * p.mn, 4 * p.mx)
PID(q, xd, vd) == [kp |-> q[1], ki |-> q[2], kd |-> q[3], f |-> q[4], im |-> q[5], mx |-> q[6], mn |-> q[7], xd |-> xd, vd |-> vd, I |-> 0]
NoPid == PID(<<0, 0, 0, 1, 0, 0, 0>>, 0, 0)

----------------------------------------------------------------------------
\* actuators: w, z (quarter units), g for both joints; unit steady-state amplification unless g is given
Act(a) == CASE a[1] = 0 -> <<a[2], a[2], a[3], a[3], 1, 1>>
            [] a[1] = 1 -> <<a[2], a[2], a[3], a[3], a[4], a[4]>>
            [] a[1] = 2 -> <<a[2], a[3], a[4], a[5], 1, 1>>
            [] a[1] = 3 -> <<a[2], a[3], a[4], a[5], a[6], a[7]>>
            [] OTHER -> <<0, 0, 0, 0, 0, 0>>
\* second derivative of joint j times 2
ActAcc(p, j, x, v, u) == 2 * p[4 + j] * p[j] * p[j] * u - p[2 + j] * p[j] * v - 2 * p[j] * p[j] * x

\* shortest way to bring the angle q (units of pi/12) into [l - tol, l + 24 + tol)
Turns(q, l, tol) == LET k1 == (q - l + tol) \div 24 k2 == (q - l - tol) \div 24 IN IF Abs(k1) <= Abs(k2) THEN k1 ELSE k2
InLimits(v, lo, hi, tol) == v >= lo - tol /\ v <= hi + tol

\* 2 x 3 matrices, row-major in six places
Det2(J) == LET a == J[1] * J[1] + J[2] * J[2] + J[3] * J[3] b == J[1] * J[4] + J[2] * J[5] + J[3] * J[6] c == J[4] * J[4] + J[5] * J[5] + J[6] * J[6]
           IN a * c - b * b
JV(J, v) == LET a == J[1] * J[1] + J[2] * J[2] + J[3] * J[3] b == J[1] * J[4] + J[2] * J[5] + J[3] * J[6] c == J[4] * J[4] + J[5] * J[5] + J[6] * J[6]
                z1 == c * v[1] - b * v[2] z2 == a * v[2] - b * v[1]
            IN [i \in 1..3 |-> J[i] * z1 + J[3 + i] * z2]
Tr2(J) == J[1] * J[1] + J[2] * J[2] + J[3] * J[3] + J[4] * J[4] + J[5] * J[5] + J[6] * J[6]

D2(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2]) + (a[3] - b[3]) * (a[3] - b[3])
Sol(a, i) == Sub3(a, 6 + 3 * (i - 1))             \* a = <<call variant, count, query(3), solutions(3 each)>>
Best(a) == {Sol(a, i) : i \in {i \in 1..a[2] : \A j \in 1..a[2] : D2(Sol(a, i), Sub3(a, 3)) <= D2(Sol(a, j), Sub3(a, 3))}}

S0 == [q |-> << <<0, 0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 0, 0>> >>, acc |-> <<0, 0, 0>>, g |-> NoGen, m |-> <<1, 1, 1, 1>>, pid |-> <<NoPid, NoPid>>,
       act |-> << <<0, 0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 0, 0>> >>, sea |-> << <<1, 1>>, <<1, 1>> >>, map |-> << <<0, 0, 0>>, <<0, 0, 0>> >>]

Zip(a, b, F(_, _)) == [i \in 1..Len(a) |-> F(a[i], b[i])]
Exp(s, e) ==
    LET a == e.a IN
    CASE e.op = "jg" -> OK(s.q[a[1]] \o s.q[a[1]] \o s.q[a[1]])
      [] e.op = "jop" -> LET x == s.q[1] y == s.q[2] IN
            (CASE a[1] = 0 -> OK([i \in 1..6 |-> x[i] + y[i]]) [] a[1] = 1 -> OK([i \in 1..6 |-> x[i] - y[i]])
              [] a[1] = 2 -> OK([i \in 1..6 |-> x[i] * a[2]]) [] a[1] = 3 -> OK([i \in 1..6 |-> x[i]])       \* x / n, reported times n
              [] a[1] = 4 -> OK(<<Bool(x = y)>>) [] a[1] = 5 -> OK(<<Bool(x # y)>>)
              [] a[1] = 6 -> OK(<<Bool(\A i \in 1..6 : x[i] < y[i])>>) [] a[1] = 7 -> OK(<<Bool(\A i \in 1..6 : x[i] > y[i])>>))
      [] e.op = "jlim" -> OK(<<Bool(\A i \in 1..3 : InLimits(s.q[a[1]][i], a[2 + i], a[5 + i], a[2]))>>)
      [] e.op = "jvl" -> OK(<<Bool(\A i \in 1..3 : Abs(s.q[a[1]][3 + i]) <= a[1 + i])>>)
      [] e.op = "juq" -> OK([i \in 1..3 |-> a[1 + i] - 24 * Turns(a[1 + i], a[4 + i], a[1])] \o <<5, 6, 7>>)
      [] e.op = "jag" -> OK(<<3>> \o s.acc \o s.acc)
      [] e.op = "jaz" -> OK(<<0, 0, 0>>)
      [] e.op = "gs" -> OK(<<Tot(a)>>)
      [] e.op = "gq" -> IF a[1] < 0 THEN Thrown ELSE OK(<<Pos(s.g, a[1]), Vel(s.g, a[1])>>)
      [] e.op = "ag" -> LET n == ArmN(s.m, a) IN OK(<<n>> \o Arm(s.m, a, n, 0))
      [] e.op = "pc" -> OK(<<PidU(s.pid[1], a[1], a[3]), PidU(s.pid[2], a[2], a[4])>>)
      [] e.op = "act" -> IF a[1] = 4 THEN Thrown ELSE OK(<<>>)
      [] e.op = "ad" -> LET p == s.act[a[1]] IN      \* a = slot, state(4), control(2)
            OK(<<2 * a[4], 2 * a[5], ActAcc(p, 1, a[2], a[4], a[6]), ActAcc(p, 2, a[3], a[5], a[7])>>)
      [] e.op = "ao" -> OK(<<a[2], a[3]>>)
      [] e.op = "as" -> OK(<<a[2], a[3], 0, 0>>)
      [] e.op = "sd" -> OK(<<a[2], a[3]>>)           \* velocities times the gear ratio
      [] e.op = "so" -> OK(<<(a[4] - a[2]) * s.sea[a[1]][1], (a[5] - a[3]) * s.sea[a[1]][1]>>)
      [] e.op = "ss" -> LET k == s.sea[a[1]][1] IN OK(<<k * a[2] + a[4], k * a[3] + a[5]>>)    \* times the stiffness
      [] e.op = "sel" -> IF a[2] < 6 /\ a[3] = 1 THEN Thrown
                         ELSE OK([k \in 1..(a[1] * a[2]) |-> LET i == (k - 1) \div a[2] j == (k - 1) % a[2] IN Bool(j = i + a[2] - a[1])])
      [] e.op = "jac" -> LET D == Det2(a) IN OK(<<D, D>> \o JV(a, SubSeq(a, 7, 8)) \o <<Tr2(a) * Tr2(a) - 2 * D, Tr2(a), D>>)
      [] e.op = "mg" -> OK(s.map[a[1]])
      [] OTHER -> OK(<<>>)
Nxt(s, e) ==
    LET a == e.a IN
    IF e.x = 1 THEN s ELSE
    CASE e.op = "js" -> [s EXCEPT !.q[a[1]] = SubSeq(a, 2, 7)]
      [] e.op = "jp" -> [s EXCEPT !.q[a[1]][a[2] + 1] = a[3]]
      [] e.op = "jv" -> [s EXCEPT !.q[a[1]][a[2] + 4] = a[3]]
      [] e.op = "jpb" -> [s EXCEPT !.q[a[1]] = SubSeq(a, 2, 4) \o SubSeq(@, 4, 6)]
      [] e.op = "jvb" -> [s EXCEPT !.q[a[1]] = SubSeq(@, 1, 3) \o SubSeq(a, 2, 4)]
      [] e.op = "jz" -> [s EXCEPT !.q[a[1]] = <<0, 0, 0, 0, 0, 0>>]
      [] e.op = "jcp" -> [s EXCEPT !.q[2] = s.q[1]]
      [] e.op = "jas" -> [s EXCEPT !.acc = a]
      [] e.op = "jai" -> [s EXCEPT !.acc[a[1] + 1] = a[2]]
      [] e.op = "gn" -> [s EXCEPT !.g = NoGen]
      [] e.op = "gs" -> [s EXCEPT !.g = a]
      [] e.op = "arm" -> [s EXCEPT !.m = a]
      [] e.op = "pp" -> [s EXCEPT !.pid = <<PID(SubSeq(a, 6, 12), a[2], a[4]), PID(IF a[1] = 0 THEN SubSeq(a, 6, 12) ELSE SubSeq(a, 13, 19), a[3], a[5])>>]
      [] e.op = "pc" -> [s EXCEPT !.pid[1].I = NewI(s.pid[1], s.pid[1].xd - a[1]), !.pid[2].I = NewI(s.pid[2], s.pid[2].xd - a[2])]
      [] e.op = "pd" -> [s EXCEPT !.pid[1].xd = a[1], !.pid[2].xd = a[2]]
      [] e.op = "pd1" -> [s EXCEPT !.pid[a[1] + 1].xd = a[2]]
      [] e.op = "pg" -> [s EXCEPT !.pid = [j \in 1..2 |-> [s.pid[j] EXCEPT !.kp = a[1], !.ki = a[2], !.kd = a[3]]]]
      [] e.op = "pr" -> [s EXCEPT !.pid[1].I = 0, !.pid[2].I = 0]
      [] e.op = "act" -> [s EXCEPT !.act[1] = Act(a)]
      [] e.op = "acl" -> [s EXCEPT !.act[2] = s.act[1]]
      [] e.op = "sea" -> [s EXCEPT !.sea[1] = a]
      [] e.op = "scl" -> [s EXCEPT !.sea[2] = s.sea[1]]
      [] e.op = "ms" -> [s EXCEPT !.map[a[1]] = <<a[2], a[2], a[2]>>]
      [] e.op = "me" -> [s EXCEPT !.map[a[1]][a[2] + 1] = a[3]]
      [] e.op = "mc" -> [s EXCEPT !.map[a[1]] = s.map[a[2]]]
      [] OTHER -> s
\* inverse kinematics: any closest solution will do; none found: nothing returned and the caller's value untouched
IkOk(e) == IF e.a[2] = 0 THEN e.r = <<0, 77, 77, 77>> ELSE Len(e.r) = 4 /\ e.r[1] = 1 /\ SubSeq(e.r, 2, 4) \in Best(e.a)
Match(s, e) == IF e.op = "ik" THEN e.x = 0 /\ IkOk(e) ELSE e.x = Exp(s, e).x /\ e.r = Exp(s, e).r
=============================================================================
