--------------------------------- MODULE Nloc ---------------------------------
(* The NLOC solver (NLOptConSolver, both backends, all seven algorithms, line search), exactly, on a problem whose
   Riccati recursion stays dyadic:  x+ = x + sigma_k u + k + 1 + off  (sigma_k = 1, -1, 1, ... or its negative),  dt = 1/2,  running-cost
   Hessians such that S = 1 and the gains are -sigma_k / 2 at every stage;  gradients affine in (x, u);  the value of the
   cost is an arbitrary (hash) function of state, control and stage, so that the line search sees every pattern of
   accepted and rejected steps.  States, controls and defects are in units of 1/65536; costs are integers.
   settings: <<algorithm, K, K_shot, line search (0 none, 1 simple, 2 Armijo with parameter 0), max. line search steps,
               rho, threads, max. iterations>> *)
EXTENDS Integers, Sequences
Sc == 65536
Min(a, b) == IF a < b THEN a ELSE b
Abs(v) == IF v < 0 THEN -v ELSE v
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
Half(v) == v \div 2
Pow2(e) == 2 ^ e
GNMS == 0
ILQR == 1
MSILQR == 2
SSOL == 3
SSCL == 4
GNMSOL == 5
GNMSCL == 6
Single(a) == a \in {ILQR, SSOL, SSCL}
Closed(a) == a \in {ILQR, MSILQR, SSCL, GNMSCL}
Sig(s, k) == IF k % 2 = s.f THEN 1 ELSE -1
\* ---- the user's problem
Con(s, k) == (k + 1 + s.off) * Sc
Inter(s, k, x, u) == 1 + (((u % 997) * 31 + (x % 991) * 17 + k * 7 + s.h) % 50)     \* one stage, already times dt
Final(s, x) == ((x % 983) * 13 + s.h) % 50
GradX(s, k, x) == Half(x) + ((s.g % 3) - k) * Sc                                     \* already times dt
GradU(s, k, u) == u + ((s.g % 5) - 2 + 2 * k) * Sc
GradF(s, x) == x + ((s.g % 7) - 3) * Sc
Cost(s, x, u) == Sum([k \in 1..Len(u) |-> Inter(s, k - 1, x[k], u[k])]) + Final(s, x[Len(x)])
Norm(q) == Sum([i \in 1..Len(q) |-> Abs(q[i])])
Dist(a, b) == Sum([i \in 1..Len(a) |-> Abs(a[i] - b[i])])
Zero(n) == [i \in 1..n |-> 0]
\* ---- settings and state
Alg(s) == s.set[1]
K(s) == s.K
Per(s) == IF Single(Alg(s)) THEN s.K ELSE Min(s.K, s.set[3])
\* initial guess number g for n stages;  l: twice the feedback gains
GX(g, n) == [i \in 1..(n + 1) |-> (((g * 7 + i * 3) % 5) - 2) * Sc]
GU(g, n) == [i \in 1..n |-> (((g * 3 + i * 5) % 7) - 3) * Sc]
GL(g, n) == [i \in 1..n |-> ((g + i) % 3) - 1]
S0 == [on |-> FALSE, set |-> <<0, 1, 1, 0, 1, 0, 1, 1>>, K |-> 1, off |-> 0, f |-> 0, lim |-> 1000, lost |-> FALSE, g |-> 0, h |-> 0, x |-> <<>>, u |-> <<>>, l |-> <<>>,
       xr |-> <<>>, xp |-> <<>>, d |-> <<>>, it |-> 0, c |-> 0, ret |-> 1, alpha |-> 0, lx |-> 0, lu |-> 0, n |-> 0, mpc |-> FALSE, init |-> FALSE]
\* ---- rollout of one shot: stages i..stop-1 from state xs; w = [x, u, d, bad];  the plant has no successor (not a number)
\*      beyond its limit, and a rollout which meets that is bad
RECURSIVE Go(_, _, _, _, _, _)
Go(s, w, xr, xs, i, stop) ==
    IF w.bad THEN w ELSE
    IF i = stop
    THEN IF stop < K(s) /\ ~Single(Alg(s)) THEN [w EXCEPT !.d[stop] = xs - w.x[stop + 1]] ELSE w
    ELSE LET u1 == w.u[i + 1] + (IF Closed(Alg(s)) THEN Half(s.l[i + 1] * (xs - xr[i + 1])) ELSE 0)
             x1 == xs + Sig(s, i) * u1 + Con(s, i)
             w1 == [w EXCEPT !.u[i + 1] = u1, !.x[i + 1] = xs, !.bad = Abs(x1) > s.lim * Sc]
             w2 == IF i = K(s) - 1 THEN [w1 EXCEPT !.x[i + 2] = x1] ELSE w1
         IN Go(s, w2, xr, x1, i + 1, stop)
RECURSIVE Shots(_, _, _, _)
Shots(s, w, xr, k) == IF k >= K(s) THEN w ELSE Shots(s, Go(s, w, xr, w.x[k + 1], k, Min(k + Per(s), K(s))), xr, k + Per(s))
Roll(s, x, u, d, xr) == Shots(s, [x |-> x, u |-> u, d |-> d, bad |-> FALSE], xr, 0)
\* ---- the linear-quadratic subproblem around (x, u) with defects d: backward pass, then forward pass
RECURSIVE Back(_, _, _)
Back(s, k, sv) ==          \* sequence of the feedforward terms of stages 0..k, given the cost-to-go gradient of stage k + 1
    IF k < 0 THEN <<>> ELSE
    LET b == s.d[k + 1]
        lv == -Half(GradU(s, k, s.u[k + 1]) + Sig(s, k) * (sv + b))
    IN Append(Back(s, k - 1, GradX(s, k, s.x[k + 1]) + sv + b + Sig(s, k) * lv), lv)
LV(s) == Back(s, K(s) - 1, GradF(s, s.x[K(s) + 1]))
RECURSIVE Fwd(_, _, _, _, _)
Fwd(s, lv, k, dx, acc) ==  \* acc = [du, dx]
    IF k = K(s) THEN acc ELSE
    LET du == lv[k + 1] + Half(-Sig(s, k) * dx)
        dn == dx + Sig(s, k) * du + s.d[k + 1]
    IN Fwd(s, lv, k + 1, dn, [du |-> Append(acc.du, du), dx |-> Append(acc.dx, dn)])
\* what the algorithm takes from the subproblem: control step, state step, step of the feedback reference, gains (times 2)
Step(s) ==
    LET lv == LV(s)
        f == Fwd(s, lv, 0, 0, [du |-> <<>>, dx |-> <<0>>])
        z == Zero(K(s) + 1)
        L == [k \in 1..K(s) |-> -Sig(s, k - 1)]
    IN CASE Alg(s) \in {GNMS, GNMSOL, SSOL} -> [du |-> f.du, dx |-> f.dx, dr |-> z, l |-> Zero(K(s))]
         [] Alg(s) = ILQR -> [du |-> lv, dx |-> z, dr |-> z, l |-> L]
         [] Alg(s) = MSILQR -> [du |-> lv, dx |-> f.dx, dr |-> z, l |-> L]
         [] OTHER -> [du |-> f.du, dx |-> f.dx, dr |-> f.dx, l |-> L]
Add(a, b, e) == [i \in 1..Len(a) |-> a[i] + b[i] \div Pow2(e)]
Merit(s, c, d) == c * Sc + s.set[6] * Norm(d)
\* the candidate with step length 2^-e
Try(s, p, e) == Roll([s EXCEPT !.l = p.l], Add(s.x, p.dx, e), Add(s.u, p.du, e), Zero(K(s) + 1), Add(s.x, p.dr, e))
Better(s, w) == ~w.bad /\ LET m == Merit(s, Cost(s, w.x, w.u), w.d) o == Merit(s, s.c, s.d) IN IF s.set[4] = 1 THEN m < o ELSE m <= o
RECURSIVE First(_, _, _)
First(s, p, e) == IF e = s.set[5] THEN [e |-> -1, w |-> [x |-> s.x, u |-> s.u, d |-> s.d, bad |-> FALSE]]
                  ELSE LET w == Try(s, p, e) IN IF Better(s, w) THEN [e |-> e, w |-> w] ELSE First(s, p, e + 1)
\* first iteration after a (re)start: roll the guess out
Begin(s) == IF s.it > 0 THEN s ELSE
    LET w == Roll(s, s.x, s.u, Zero(K(s) + 1), IF Single(Alg(s)) THEN s.xp ELSE s.xr)
    IN [s EXCEPT !.x = w.x, !.u = w.u, !.d = w.d, !.c = Cost(s, w.x, w.u), !.xp = w.x, !.lost = s.lost \/ w.bad]
Iterate(s0) ==
    LET s == Begin(s0)
        p == Step(s)
        full == Roll([s EXCEPT !.l = p.l], Add(s.x, p.dx, 0), Add(s.u, p.du, 0), Zero(K(s) + 1), Add(s.x, p.dr, 0))
        ls == First(s, p, 0)
        w == IF s.set[4] = 0 THEN full ELSE ls.w
        ok == s.set[4] = 0 \/ ls.e >= 0
        c1 == IF ok THEN Cost(s, w.x, w.u) ELSE s.c
        \* going on: relative improvement above 1/8, or defects above 1
        ret == IF s.set[4] = 0 THEN 8 * Abs(s.c - c1) > s.c \/ Norm(w.d) > Sc
               ELSE ok /\ (LET o == Merit(s, s.c, s.d) n == Merit(s, c1, w.d) IN 8 * (o - n) > o \/ Norm(w.d) > Sc)
    IN [s EXCEPT !.x = w.x, !.u = w.u, !.d = w.d, !.l = p.l, !.c = c1, !.xp = w.x, !.it = @ + 1, !.n = @ + 1, !.mpc = FALSE,
                 !.xr = IF s.set[4] = 0 THEN Add(s.x, p.dr, 0) ELSE s.x,
                 !.alpha = IF s.set[4] = 0 THEN 64 ELSE IF ls.e >= 0 THEN 64 \div Pow2(ls.e) ELSE 0,
                 !.lx = Dist(w.x, s.x), !.lu = Dist(w.u, s.u), !.ret = IF ret THEN 1 ELSE 0, !.lost = s.lost \/ w.bad]
RECURSIVE Solve(_, _)
Solve(s, n) == IF n = 0 THEN s ELSE LET s1 == Iterate(s) IN IF s1.ret = 0 THEN s1 ELSE Solve(s1, n - 1)
\* real-time iteration: multiple shooting takes the full step and does not roll out again
Rti(s0) ==
    IF Single(Alg(s0)) THEN [Iterate(s0) EXCEPT !.ret = 1] ELSE
    LET s == Begin([s0 EXCEPT !.it = 0]) p == Step(s)
    IN [s EXCEPT !.x = Add(s.x, p.dx, 0), !.u = Add(s.u, p.du, 0), !.l = p.l, !.xr = Add(s.x, p.dr, 0), !.it = s0.it + 1,
                 !.ret = 1, !.mpc = TRUE, !.alpha = 64, !.n = @ + 1]

OK(r) == [r |-> r, x |-> 0]
Err == [r |-> <<>>, x |-> 1]
BadSet(a, sh) == a = ILQR /\ sh > 1
\* horizon, trajectories, gains; after an iteration its outcome, unless it was a real-time iteration
Traj(s) == <<K(s)>> \o s.x \o s.u \o s.l
Out(s, op) == Traj(s) \o <<IF op = "solve" THEN -1 ELSE s.ret, s.n>> \o (IF s.mpc THEN <<>> ELSE <<s.c, Norm(s.d), s.alpha, s.lx, s.lu, s.c * Sc + s.set[6] * Norm(s.d)>>)
Guess(s, g, ex) == [s EXCEPT !.x = SubSeq(GX(g, K(s) + ex), 1, K(s) + 1), !.u = SubSeq(GU(g, K(s) + ex), 1, K(s)), !.l = SubSeq(GL(g, K(s) + ex), 1, K(s)),
                       !.xr = SubSeq(GX(g, K(s) + ex), 1, K(s) + 1), !.xp = SubSeq(GX(g, K(s) + ex), 1, K(s) + 1), !.d = Zero(K(s) + 1), !.it = 0, !.init = TRUE,
                       !.c = Cost(s, SubSeq(GX(g, K(s) + ex), 1, K(s) + 1), SubSeq(GU(g, K(s) + ex), 1, K(s)))]
After(s, e) == CASE e.op \in {"iter", "pf"} -> Iterate(s) [] e.op = "solve" -> Solve(s, s.set[8]) [] e.op = "mpc" -> Rti(s)
Runs == {"iter", "pf", "solve", "mpc"}
Exp(s, e) ==
    LET a == e.a IN
    CASE e.op = "new" -> IF BadSet(a[1], a[3]) THEN Err ELSE OK(<<>>)
      [] e.op = "conf" -> IF BadSet(a[1], a[3]) THEN Err ELSE OK(<<>>)
      [] e.op \in Runs -> IF ~s.init THEN Err ELSE OK(Out(After(s, e), e.op))
      [] e.op = "guess" -> IF a[2] < 0 THEN Err ELSE LET s1 == Guess(s, a[1], a[2]) IN OK(Traj(s1) \o <<s1.c>>)
      [] e.op = "tf" -> OK(<<a[1]>>)
      [] OTHER -> OK(<<>>)
\* a trajectory which is not a number, and which no line search could reject, ends what is specified until the next solver
Match(s, e) == s.lost \/ (e.op \in Runs /\ s.init /\ After(s, e).lost) \/ LET q == Exp(s, e) IN e.x = q.x /\ e.r = q.r
Nxt(s, e) ==
    LET a == e.a IN
    IF s.lost /\ e.op # "new" THEN s ELSE
    CASE e.op = "new" -> IF BadSet(a[1], a[3]) THEN s ELSE [S0 EXCEPT !.on = TRUE, !.set = a, !.K = a[2]]
      [] e.op = "conf" -> IF BadSet(a[1], a[3]) THEN s ELSE [s EXCEPT !.set = [i \in 1..8 |-> IF i \in {2, 7} THEN s.set[i] ELSE a[i]], !.it = 0]
      [] e.op \in Runs -> IF ~s.init THEN s ELSE After(s, e)
      [] e.op = "guess" -> IF a[2] < 0 THEN s ELSE Guess(s, a[1], a[2])
      [] e.op = "tf" -> [s EXCEPT !.K = a[1], !.it = 0]
      [] e.op = "x0" -> [s EXCEPT !.x[1] = a[1] * Sc, !.it = 0]
      [] e.op = "cost" -> LET s1 == [s EXCEPT !.g = a[1], !.h = a[2]] IN
            IF s.it > 0 /\ s.set[4] # 0 THEN [s1 EXCEPT !.c = Cost(s1, s.x, s.u)] ELSE s1
      [] e.op = "sys" -> [s EXCEPT !.off = a[1], !.f = a[2], !.lim = a[3]]
      [] OTHER -> s
=============================================================================
