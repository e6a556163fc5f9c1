------------------------------ MODULE RobotMC ------------------------------
(* Bounded model of Robot: generated motions respect their limits, go straight to the target and end there at rest, a new
   plan forgets the old one; controllers and actuators of one joint do not see the other; clones stay what they were. *)
EXTENDS Robot, TLC, Json
CONSTANTS Mode, Gen, Depth
VARIABLES st, hist, d
View == <<st, d>>
vars == <<st, hist, d>>
E(op, a) == [op |-> op, a |-> a, x |-> 0]
\* four positions in each direction, speeds and accelerations such that all quantities stay dyadic
Plans == {g \in {0, 5} \X {-48, -16, 0, 1, 4, 5, 16, 21, 37, 64, 80} \X {1, 2, 4} \X {1, 4} : Feasible(g)}
GenOps == {E("gs", g) : g \in Plans} \cup {E("gn", <<>>)} \cup {E("gq", <<t>>) : t \in {-1, 0, 7, 16, 32, 64, 100, 160, 400}}
JsOps == {E("js", <<k, 4, -8, 0, 1, -3, 2>>) : k \in {1, 2}} \cup {E("jp", <<1, i, 6>>) : i \in 0..2} \cup {E("jv", <<1, i, -6>>) : i \in 0..2} \cup
         {E("jpb", <<1, 3, -9, 0>>), E("jvb", <<2, 2, -2, 3>>), E("jz", <<1>>), E("jcp", <<>>), E("jg", <<1>>), E("jg", <<2>>)} \cup
         {E("jop", <<o, 2>>) : o \in 0..7} \cup
         {E("jlim", <<1, tol, -1, -8, 0, 6, 0, 0>>) : tol \in {0, 1, 2}} \cup {E("jlim", <<1, 0, -1, -7, 0, 3, 0, 0>>), E("jvl", <<1, 1, 3, 2>>), E("jvl", <<1, 1, 2, 2>>), E("jvl", <<2, 3, 3, 3>>)}
CtlOps == {E("pp", <<0, 1, -1, 0, 2, 2, 1, 1, 2, 3, 9, -5>>), E("pp", <<1, 3, 0, 1, 0, 1, 2, 0, 1, 2, 6, -6, 4, 0, 1, 4, 1, 20, -20>>),
           E("pd", <<4, -4>>), E("pd1", <<0, 7>>), E("pd1", <<1, -7>>), E("pg", <<1, 3, 2>>), E("pr", <<>>), E("pc", <<0, 1, 2, -1>>), E("pc", <<-3, 2, 0, 0>>)}
ActOps == {E("act", <<0, 2, 3>>), E("act", <<1, 3, 1, 5>>), E("act", <<2, 2, 3, 4, 5>>), E("act", <<3, 1, 2, 3, 4, 5, 6>>), E("acl", <<>>),
           E("sea", <<4, 2>>), E("sea", <<2, 4>>), E("scl", <<>>)} \cup
          {E("ad", <<k, 1, -2, 3, 4, 5, -6>>) : k \in {1, 2}} \cup {E("ao", <<1, 1, 2, 3, 4>>), E("as", <<1, 5, 6>>)} \cup
          UNION {{E("sd", <<k, 3, -4>>), E("so", <<k, 1, 2, 5, 7>>), E("ss", <<k, 1, 2, 5, 7>>)} : k \in {1, 2}} \cup
          UNION {{E("ms", <<k, 4>>), E("me", <<k, 1, 9>>), E("mc", <<k, 3 - k, 1>>), E("mc", <<k, 3 - k, 0>>), E("mc", <<k, k, 0>>), E("mg", <<k>>)} : k \in {1, 2}}
Ops == CASE Mode = "gen" -> GenOps [] Mode = "js" -> JsOps [] Mode = "ctl" -> CtlOps [] Mode = "act" -> ActOps
Init == st = S0 /\ hist = <<>> /\ d = 0
Next == d < Depth /\ \E e \in Ops :
    /\ st' = Nxt(st, [e EXCEPT !.x = Exp(st, e).x])
    /\ d' = d + 1
    /\ hist' = IF Gen THEN Append(hist, [op |-> e.op, a |-> e.a]) ELSE <<>>
    /\ Gen => PrintT("SCRIPT " \o ToJson(hist'))
\* limits, direction, ends, and the speed as the slope of the position
Times == 0..(Tot(st.g) + 3)
Limits == \A t \in Times : Abs(Vel(st.g, t)) <= 64 * st.g[3] /\ Abs(Vel(st.g, t + 1) - Vel(st.g, t)) <= st.g[4]
Straight == \A t \in Times : Sgn(st.g[2] - st.g[1]) * (Pos(st.g, t + 1) - Pos(st.g, t)) >= 0
Arrives == Pos(st.g, 0) = 512 * st.g[1] /\ Vel(st.g, 0) = 0 /\ \A t \in Times : (t >= Tot(st.g)) <=> (Pos(st.g, t) = 512 * st.g[2] /\ Vel(st.g, t) = 0)
Slope == \A t \in Times : Pos(st.g, t + 1) - Pos(st.g, t) = Vel(st.g, t + 1) + Vel(st.g, t)
\* a faster plan does not exist: the bang-bang or trapezoidal profile is at a limit at every moment
Tight == \A t \in 0..(Tot(st.g) - 1) : Abs(Vel(st.g, t + 1) - Vel(st.g, t)) = st.g[4] \/ Abs(Vel(st.g, t)) = 64 * st.g[3]
Bounded == \A j \in 1..2, x \in {-5, 0, 5}, v \in {-3, 2} : LET p == st.pid[j] IN
    p.mn <= p.mx => PidU(p, x, v) >= 4 * p.mn /\ PidU(p, x, v) <= 4 * p.mx /\ Abs(NewI(p, p.xd - x)) <= 4 * p.im
\* a constant input u is, in the long run, amplified by the steady-state gain
Steady == \A k \in 1..2, j \in 1..2, u \in {-2, 3} : ActAcc(st.act[k], j, st.act[k][4 + j] * u, 0, u) = 0
Clones == [][(st'.act[2] # st.act[2] => st'.act[2] = st.act[1]) /\ (st'.sea[2] # st.sea[2] => st'.sea[2] = st.sea[1])]_vars
ASSUME \A q \in -60..60, l \in {-12, -5, 0, 7}, tol \in {0, 1, 5} : LET r == q - 24 * Turns(q, l, tol) IN
    r >= l - tol /\ r < l + 24 + tol /\ (q >= l - tol /\ q < l + 24 + tol => r = q) /\ (tol = 0 => r >= l /\ r < l + 24)
ASSUME \A J \in { <<1, 2, 0, 0, 1, 1>>, <<2, -1, 3, 1, 0, 1>>, <<1, 1, 1, -1, 2, 0>> }, v \in { <<1, 0>>, <<3, -2>> } :
    LET w == JV(J, v) IN J[1] * w[1] + J[2] * w[2] + J[3] * w[3] = Det2(J) * v[1] /\ J[4] * w[1] + J[5] * w[2] + J[6] * w[3] = Det2(J) * v[2]
=============================================================================
