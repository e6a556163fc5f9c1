------------------------------- MODULE Constr -------------------------------
(* Constraints (ct_optcon/constraint): constraint terms, the analytical container and the switched container.
   3 states, 2 controls, integers throughout.
   Term (tuple): <<1, sparse, m1, m2, m3, lb(3), ub(3)>>  box on the states with mask m = 1
                 <<2, sparse, m1, m2, lb(2), ub(2)>>      box on the controls
                 <<3, xf(3)>>                             terminal state, an equality
                 <<4, c(3), a1, a2, a3, a12, perm>>       outside of an ellipsoid: |A S'(p(x) - c)|^2 - 1 >= 0, p(x) = <<x1, x1 x2, x3>>
                 <<5, k>>                                 a user's constraint with two rows and the default sparsity
   Container: terms of both kinds (h: the user holds a handle), initialised or not, bounds as of the initialisation, and
   the point last set.  A switched container holds its own sub-containers and a mode sequence; its intermediate
   constraints are those of the mode at the time last set, its terminal ones those of the mode of the last phase.     *)
EXTENDS Integers, Sequences
Big == 1000000001   \* "no bound", as recorded
Slots == 1..4
OK(r) == [r |-> r, x |-> 0]
Err == [r |-> <<>>, x |-> 1]
Sub(a, i, n) == SubSeq(a, i, i + n - 1)
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
RECURSIVE Sum(_)
Sum(v) == IF v = <<>> THEN 0 ELSE Head(v) + Sum(Tail(v))
Dot(v, w) == Sum([i \in 1..Len(v) |-> v[i] * w[i]])
Unit(n, i) == [j \in 1..n |-> IF i = j THEN 1 ELSE 0]
Zero(n) == [j \in 1..n |-> 0]
RECURSIVE Sel(_, _, _)
\* the elements of v whose mask is 1
Sel(m, v, i) == IF i > Len(m) THEN <<>> ELSE (IF m[i] = 1 THEN <<v[i]>> ELSE <<>>) \o Sel(m, v, i + 1)
Mask(d) == IF d[1] = 1 THEN Sub(d, 3, 3) ELSE Sub(d, 3, 2)
LbAll(d) == IF d[1] = 1 THEN Sub(d, 6, 3) ELSE Sub(d, 5, 2)
UbAll(d) == IF d[1] = 1 THEN Sub(d, 9, 3) ELSE Sub(d, 7, 2)
Rows(d) == CASE d[1] \in {1, 2} -> Sum(Mask(d)) [] d[1] = 3 -> 3 [] d[1] = 4 -> 1 [] d[1] = 5 -> 2
Lb(d) == CASE d[1] \in {1, 2} -> Sel(Mask(d), LbAll(d), 1) [] d[1] = 3 -> Zero(3) [] d[1] = 4 -> <<0>> [] d[1] = 5 -> <<-3, -5>>
Ub(d) == CASE d[1] \in {1, 2} -> Sel(Mask(d), UbAll(d), 1) [] d[1] = 3 -> Zero(3) [] d[1] = 4 -> <<Big>> [] d[1] = 5 -> <<4, 6>>
\* ellipsoid: rows of A S' with A upper triangular and S a (cyclic) permutation
Perm(v, k) == [i \in 1..3 |-> v[((i + k - 1) % 3) + 1]]          \* S'v
UnPerm(v, k) == [i \in 1..3 |-> v[((i - k + 2) % 3) + 1]]        \* S w
EllA(d, w) == <<d[5] * w[1] + d[8] * w[2], d[6] * w[2], d[7] * w[3]>>
EllAT(d, w) == <<d[5] * w[1], d[8] * w[1] + d[6] * w[2], d[7] * w[3]>>
EllD(d, x) == <<x[1] - d[2], x[1] * x[2] - d[3], x[3] - d[4]>>
EllY(d, x) == EllA(d, Perm(EllD(d, x), d[9]))
EllG(d, x) == UnPerm(EllAT(d, EllY(d, x)), d[9])                 \* gradient with respect to p, halved
Eval(d, x, u, t) ==
    CASE d[1] = 1 -> Sel(Mask(d), x, 1)
      [] d[1] = 2 -> Sel(Mask(d), u, 1)
      [] d[1] = 3 -> [i \in 1..3 |-> x[i] - d[i + 1]]
      [] d[1] = 4 -> <<Dot(EllY(d, x), EllY(d, x)) - 1>>
      [] d[1] = 5 -> <<d[2] * x[1] * u[1] + t * x[2], x[2] * x[3] - u[2] * u[2] + d[2]>>
JacX(d, x, u, t) ==
    CASE d[1] = 1 -> Sel(Mask(d), [i \in 1..3 |-> Unit(3, i)], 1)
      [] d[1] = 2 -> [i \in 1..Rows(d) |-> Zero(3)]
      [] d[1] = 3 -> [i \in 1..3 |-> Unit(3, i)]
      [] d[1] = 4 -> LET g == EllG(d, x) IN << <<2 * (g[1] + g[2] * x[2]), 2 * g[2] * x[1], 2 * g[3]>> >>
      [] d[1] = 5 -> << <<d[2] * u[1], t, 0>>, <<0, x[3], x[2]>> >>
JacU(d, x, u, t) ==
    CASE d[1] \in {1, 3, 4} -> [i \in 1..Rows(d) |-> Zero(2)]
      [] d[1] = 2 -> Sel(Mask(d), [i \in 1..2 |-> Unit(2, i)], 1)
      [] d[1] = 5 -> << <<d[2] * x[1], 0>>, <<0, -2 * u[2]>> >>
\* a structurally non-zero count per term, in states and controls
NzX(d) == CASE d[1] = 1 -> Rows(d) [] d[1] = 2 -> 0 [] d[1] = 3 -> 3 [] OTHER -> 3 * Rows(d)
NzU(d) == CASE d[1] = 2 -> Rows(d) [] d[1] \in {1, 3} -> 0 [] OTHER -> 2 * Rows(d)
BadTerm(d) == d[1] \in {1, 2} /\ \E i \in 1..Len(Lb(d)) : Lb(d)[i] > Ub(d)[i]

None == [on |-> FALSE, sw |-> FALSE, I |-> <<>>, T |-> <<>>, iI |-> FALSE, iT |-> FALSE, lI |-> <<>>, uI |-> <<>>, lT |-> <<>>, uT |-> <<>>,
         x |-> Zero(3), u |-> Zero(2), t |-> 0, ts |-> <<0>>, ph |-> <<>>, sub |-> <<>>, at |-> FALSE]
S0 == [i \in Slots |-> None]
\* same rule as in Switch.tla
PhaseIdx(ts, t) == LET n == Len(ts) - 1 IN
    IF t < ts[1] THEN 1 ELSE IF t >= ts[n + 1] THEN n ELSE CHOOSE i \in 1..n : ts[i] <= t /\ t < ts[i + 1]
Terms(l) == [i \in 1..Len(l) |-> l[i].d]
Bounds(l, F(_)) == Cat([i \in 1..Len(l) |-> F(l[i].d)])
InitC(c) == [c EXCEPT !.iI = TRUE, !.iT = TRUE, !.lI = Bounds(c.I, Lb), !.uI = Bounds(c.I, Ub), !.lT = Bounds(c.T, Lb), !.uT = Bounds(c.T, Ub)]
NoHandles(c) == [c EXCEPT !.I = [i \in 1..Len(c.I) |-> [d |-> c.I[i].d, h |-> FALSE]], !.T = [i \in 1..Len(c.T) |-> [d |-> c.T[i].d, h |-> FALSE]]]
\* the plain container which answers for c: c itself, or the sub-container of the mode in question, at c's point
Plain(c, term) ==
    IF ~c.sw THEN c
    ELSE [c.sub[(IF term = 1 THEN c.ph[Len(c.ph)] ELSE c.ph[PhaseIdx(c.ts, c.t)])] EXCEPT !.x = c.x, !.u = c.u, !.t = c.t]
List(p, term) == Terms(IF term = 1 THEN p.T ELSE p.I)
Ready(p, term) == IF term = 1 THEN p.iT ELSE p.iI
Flat(M) == Cat(M)
EvalC(p, l) == Cat([i \in 1..Len(l) |-> Eval(l[i], p.x, p.u, p.t)])
JacXC(p, l) == Cat([i \in 1..Len(l) |-> JacX(l[i], p.x, p.u, p.t)])
JacUC(p, l) == Cat([i \in 1..Len(l) |-> JacU(l[i], p.x, p.u, p.t)])
Lo(v, b) == IF v < b THEN v - b ELSE 0
Hi(v, b) == IF b # Big /\ v > b THEN v - b ELSE 0
Count(l, F(_)) == Sum([i \in 1..Len(l) |-> F(l[i])])
Query(c, term, w) ==
    LET p == Plain(c, term) l == List(p, term) g == EvalC(p, l)
        lb == IF term = 1 THEN p.lT ELSE p.lI
        ub == IF term = 1 THEN p.uT ELSE p.uI IN
    CASE w = 0 -> OK(<<Count(l, Rows), Count(l, NzX), Count(l, NzU)>>)
      [] ~Ready(p, term) -> Err
      [] w = 1 -> OK(g)
      [] w = 2 -> OK(lb \o ub)
      [] w = 3 -> OK([i \in 1..Len(g) |-> Lo(g[i], lb[i])])
      [] w = 4 -> OK([i \in 1..Len(g) |-> Hi(g[i], ub[i])])
      [] w = 5 -> OK([i \in 1..Len(g) |-> Lo(g[i], lb[i]) + Hi(g[i], ub[i])])
      [] w = 6 -> OK(Flat(JacXC(p, l)))                                   \* dense
      [] w = 7 -> OK(Flat(JacUC(p, l)))
      [] w = 8 -> OK(<<Count(l, NzX)>> \o Flat(JacXC(p, l)))              \* sparse entries at the positions of the pattern
      [] w = 9 -> OK(<<Count(l, NzU)>> \o Flat(JacUC(p, l)))
Refused(s, e) == e.op = "add" /\ (e.a[3] = 1 \/ BadTerm(Sub(e.a, 4, Len(e.a) - 3)))
Exp(s, e) ==
    LET a == e.a IN
    IF Refused(s, e) THEN Err
    ELSE IF e.op = "q" THEN Query(s[a[1]], a[2], a[3])
    ELSE IF e.op = "cnt" THEN LET c == s[a[1]] IN
         OK(<<Query(c, 0, 0).r[1] + Query(c, 1, 0).r[1], Query(c, 0, 0).r[2] + Query(c, 1, 0).r[2] + Query(c, 0, 0).r[3] + Query(c, 1, 0).r[3],
              IF c.iI /\ c.iT THEN 1 ELSE 0>>)
    ELSE OK(<<>>)
\* phases follow as (mode, duration) pairs; the containers of the modes are copies of slots 1..3
Nxt(s, e) ==
    LET a == e.a IN
    IF Refused(s, e) THEN s ELSE
    CASE e.op = "new" -> [s EXCEPT ![a[1]] = [None EXCEPT !.on = TRUE, !.x = IF a[2] = 1 THEN Sub(a, 3, 3) ELSE @, !.u = IF a[2] = 1 THEN Sub(a, 6, 2) ELSE @, !.t = IF a[2] = 1 THEN a[8] ELSE @]]
      [] e.op = "add" -> LET d == [d |-> Sub(a, 4, Len(a) - 3), h |-> TRUE] IN
                         IF a[2] = 0 THEN [s EXCEPT ![a[1]].I = Append(@, d), ![a[1]].iI = FALSE] ELSE [s EXCEPT ![a[1]].T = Append(@, d), ![a[1]].iT = FALSE]
      [] e.op = "mut" -> IF a[2] = 0
                         THEN [s EXCEPT ![a[1]].I = [i \in 1..Len(@) |-> IF i = a[3] /\ @[i].h /\ @[i].d[1] = 5 THEN [@[i] EXCEPT !.d = <<5, a[4]>>] ELSE @[i]]]
                         ELSE [s EXCEPT ![a[1]].T = [i \in 1..Len(@) |-> IF i = a[3] /\ @[i].h /\ @[i].d[1] = 5 THEN [@[i] EXCEPT !.d = <<5, a[4]>>] ELSE @[i]]]
      [] e.op = "init" -> IF s[a[1]].sw THEN [s EXCEPT ![a[1]].sub = [k \in 1..3 |-> InitC(@[k])], ![a[1]].iI = TRUE, ![a[1]].iT = TRUE] ELSE [s EXCEPT ![a[1]] = InitC(@)]
      [] e.op = "set" -> [s EXCEPT ![a[1]].x = Sub(a, 2, 3), ![a[1]].u = Sub(a, 5, 2), ![a[1]].t = a[7], ![a[1]].at = TRUE]
      [] e.op = "clone" -> [s EXCEPT ![a[2]] = NoHandles(s[a[1]])]
      [] e.op = "switch" -> LET n == (Len(a) - 2) \div 2
                                RECURSIVE Ts(_)
                                Ts(k) == IF k = 0 THEN <<a[2]>> ELSE LET p == Ts(k - 1) IN Append(p, p[k] + a[2 * k + 2]) IN
                            [s EXCEPT ![a[1]] = [None EXCEPT !.on = TRUE, !.sw = TRUE, !.ts = Ts(n), !.ph = [k \in 1..n |-> a[2 * k + 1]],
                                                           !.sub = [k \in 1..3 |-> NoHandles(s[k])]]]
      [] OTHER -> s
\* a switched container answers once it is initialised and has been told the time
Match(s, e) == (e.op \in {"q", "cnt"} /\ s[e.a[1]].sw /\ ~(s[e.a[1]].iI /\ s[e.a[1]].at)) \/ LET q == Exp(s, e) IN e.x = q.x /\ e.r = q.r
=============================================================================
