-------------------------------- MODULE Lq --------------------------------
(* Linear-quadratic optimal control problems (LQOCProblem) and their solution by the Riccati solver (GNRiccatiSolver).
   n = m = 2.  Numbers are integers in units of 1/64.
   A problem has stages 0..N-1, each [A, B, b, P, Q, R, q, r], and a terminal stage [Q, q]:
       minimise  sum_k  1/2 x'Qx + 1/2 u'Ru + u'Px + q'x + r'u   +   1/2 x_N'Q_N x_N + q_N'x_N
       subject to x_{k+1} = A x_k + B u_k + b,  x_0 = 0.
   Its solution: u_k = l_k + L_k x_k by the backward recursion below, in which the control Hessian H = R + B'SB is
   replaced by Hi: H + eps I (fixed correction) or H with its eigenvalues raised to at least eps.
   op lq <<how, stagewise, fixed, eps, rec, N, data>>: hand a problem to a solver (how = 0: the same problem object
   refilled, 1: another problem object, 2: a new solver made for N stages, 3: a new solver made for this problem), solve
   it at once or stage by stage, and observe sizes, L, l, states, controls and (rec, H diagonal) the smallest eigenvalue.
   The result depends on that problem only.
   The remaining operations act on a problem's constraint containers (see below).                                      *)
EXTENDS Mat, TLC
SD == 26   \* data per stage
Stage(a, o) == [A |-> At(a, o, 2, 2), B |-> At(a, o + 4, 2, 2), b |-> Seq1(a, o + 8, 2), P |-> At(a, o + 10, 2, 2),
                Q |-> At(a, o + 14, 2, 2), R |-> At(a, o + 18, 2, 2), q |-> Seq1(a, o + 22, 2), r |-> Seq1(a, o + 24, 2)]
Problem(a, o, N) == TLCEval([st |-> [k \in 1..N |-> Stage(a, o + SD * (k - 1))], QN |-> At(a, o + SD * N, 2, 2), qN |-> Seq1(a, o + SD * N + 4, 2)])
Max(x, y) == IF x > y THEN x ELSE y
Min(x, y) == IF x < y THEN x ELSE y
Hessian(H, fixed, eps) ==
    IF fixed = 1 THEN MA(H, << <<eps, 0>>, <<0, eps>> >>)
    ELSE IF H[1][2] = 0 /\ H[2][1] = 0 THEN << <<Max(H[1][1], eps), 0>>, <<0, Max(H[2][2], eps)>> >>
    ELSE H    \* generated with all eigenvalues above eps
\* one backward step: S, s of the cost-to-go at k+1, stage data z
Back(z, S, s, fixed, eps) ==
    LET BT == T(z.B)
        H == MA(z.R, MM(MM(BT, S), z.B))
        Hi == Hessian(H, fixed, eps)
        G == MA(z.P, MM(MM(BT, S), z.A))
        g == VA(z.r, VA(MV(BT, s), MV(BT, MV(S, z.b))))
        L == SolveM(Hi, [i \in 1..2 |-> [j \in 1..2 |-> -G[i][j]]])
        l == SolveV(Hi, [i \in 1..2 |-> -g[i]])
        He == IF fixed = 1 THEN Hi ELSE H
    IN [L |-> L, l |-> l,
        S |-> MA(MA(z.Q, MM(MM(T(z.A), S), z.A)), MM(T(L), G)),
        s |-> VA(VA(z.q, MV(T(z.A), VA(s, MV(S, z.b)))), MV(T(G), l)),
        diag |-> H[1][2] = 0 /\ H[2][1] = 0, eig |-> Min(He[1][1], He[2][2])]
Join(b, n) == [L |-> <<b.L>> \o n.L, l |-> <<b.l>> \o n.l, S |-> b.S, s |-> b.s, diag |-> b.diag /\ n.diag, eig |-> Min(b.eig, n.eig)]
RECURSIVE Sol(_, _, _, _)
\* stages k..N-1 solved
Sol(p, k, fixed, eps) ==
    IF k > Len(p.st) THEN [L |-> <<>>, l |-> <<>>, S |-> p.QN, s |-> p.qN, diag |-> TRUE, eig |-> 900000]
    ELSE One({ Join(w[1], w[2]) : w \in { <<Back(p.st[k], n.S, n.s, fixed, eps), n>> : n \in {Sol(p, k + 1, fixed, eps)} } })
RECURSIVE Roll(_, _, _, _)
Roll(p, sol, k, x) ==
    IF k > Len(p.st) THEN [x |-> <<x>>, u |-> <<>>]
    ELSE One({ One({ [x |-> <<x>> \o r.x, u |-> <<u>> \o r.u] : r \in {Roll(p, sol, k + 1, VA(VA(MV(p.st[k].A, x), MV(p.st[k].B, u)), p.st[k].b))} })
             : u \in {VA(sol.l[k], MV(sol.L[k], x))} })
Observe(a, p, s, r) ==
    LET N == a[6]
    IN <<N, N, N + 1, N>> \o Flat([k \in 1..N |-> Flat(s.L[k])]) \o Flat(s.l) \o Flat(r.x) \o Flat(r.u)
       \o <<IF a[5] = 1 /\ s.diag THEN s.eig ELSE 0>>
Solved(a) == One({ One({ One({ Observe(a, p, s, r) : r \in {Roll(p, s, 1, <<0, 0>>)} }) : s \in {Sol(p, 1, a[3], a[4])} }) : p \in {Problem(a, 6, a[6])} })

(* Constraint containers of a problem with K stages: ub, xb: sequences (K, K+1) of <<n, idx, lb, ub>> with the bounds relative
   to the nominal point; g: sequence (K+1) of general constraints [C, D, lo, hi].
   new <<K>>, stages <<K>>, zero <<n>>;
   ubox <<k, n, i1, i2, lb1, lb2, ub1, ub2, nom1, nom2>> (k = -1: all stages), xbox (same), tbox <<n, ...>> terminal
   gen <<n, lo, hi, C(2), D(2) per row>>; dump; refuse: hand it to the Riccati solver.
   An index list that reaches beyond the dimension, or bounds of the wrong length (n > 2), are refused.                 *)
None == [n |-> 0, i |-> <<>>, lo |-> <<>>, hi |-> <<>>]
NoG == [n |-> 0, lo |-> <<>>, hi |-> <<>>, C |-> <<>>, D |-> <<>>]
S0 == [K |-> 0, ub |-> <<>>, xb |-> <<None>>, g |-> <<NoG>>]
Rs(s, n, d) == [k \in 1..n |-> IF k <= Len(s) THEN s[k] ELSE d]
Box(a, o) == LET n == a[o] IN
    [n |-> n, i |-> [j \in 1..n |-> a[o + j]], lo |-> [j \in 1..n |-> a[o + 2 + j] - a[o + 7 + a[o + j]]],
     hi |-> [j \in 1..n |-> a[o + 4 + j] - a[o + 7 + a[o + j]]]]
BoxOK(a, o) == LET n == a[o] IN a[o + n] <= 1
Gen(a) == [n |-> a[1], lo |-> [j \in 1..a[1] |-> a[1 + 6 * (j - 1) + 1]], hi |-> [j \in 1..a[1] |-> a[1 + 6 * (j - 1) + 2]],
           C |-> [j \in 1..a[1] |-> <<a[1 + 6 * (j - 1) + 3], a[1 + 6 * (j - 1) + 4]>>],
           D |-> [j \in 1..a[1] |-> <<a[1 + 6 * (j - 1) + 5], a[1 + 6 * (j - 1) + 6]>>]]
ZeroG(n) == [n |-> n, lo |-> ZeroV(n), hi |-> ZeroV(n), C |-> Zero(n, 2), D |-> Zero(n, 2)]
ClearBox(s) == [k \in 1..Len(s) |-> None]
Refused(st, e) ==
    LET a == e.a IN
    CASE e.op \in {"ubox", "xbox"} -> a[1] >= st.K \/ ((a[1] >= 0 \/ st.K > 0) /\ ~BoxOK(a, 2))
      [] e.op = "tbox" -> a[1] > 0 /\ ~BoxOK(a, 1)
      [] e.op = "gen" -> a[1] = 9     \* rows of C and bounds disagree
      [] e.op = "refuse" -> (\E k \in 1..Len(st.ub) : st.ub[k].n > 0) \/ (\E k \in 1..Len(st.xb) : st.xb[k].n > 0) \/ (\E k \in 1..Len(st.g) : st.g[k].n > 0)
      [] OTHER -> FALSE
Nxt(st, e) ==
    LET a == e.a IN
    IF Refused(st, e) THEN st ELSE
    CASE e.op = "new" -> [K |-> a[1], ub |-> [k \in 1..a[1] |-> None], xb |-> [k \in 1..(a[1] + 1) |-> None], g |-> [k \in 1..(a[1] + 1) |-> NoG]]
      [] e.op = "stages" -> [K |-> a[1], ub |-> Rs(st.ub, a[1], None), xb |-> Rs(st.xb, a[1] + 1, None), g |-> Rs(st.g, a[1] + 1, NoG)]
      [] e.op = "zero" -> [st EXCEPT !.ub = ClearBox(@), !.xb = ClearBox(@), !.g = [k \in 1..Len(@) |-> ZeroG(a[1])]]
      [] e.op = "ubox" -> [st EXCEPT !.ub = [k \in 1..Len(@) |-> IF a[1] = -1 \/ a[1] = k - 1 THEN Box(a, 2) ELSE @[k]]]
      [] e.op = "xbox" -> [st EXCEPT !.xb = [k \in 1..Len(@) |-> IF (a[1] = -1 /\ k <= st.K) \/ a[1] = k - 1 THEN Box(a, 2) ELSE @[k]]]
      [] e.op = "tbox" -> IF a[1] = 0 THEN st ELSE [st EXCEPT !.xb[st.K + 1] = Box(a, 1)]
      [] e.op = "gen" -> [st EXCEPT !.g = [k \in 1..Len(@) |-> Gen(a)]]
      [] OTHER -> st
B2(p) == IF p THEN 1 ELSE 0
RECURSIVE Cat(_, _)
Cat(f, n) == IF n = 0 THEN <<>> ELSE Cat(f, n - 1) \o f[n]
DumpBox(b) == <<b.n>> \o b.i \o b.lo \o b.hi
DumpG(g) == <<g.n>> \o g.lo \o g.hi \o Flat(g.C) \o Flat(g.D)
Flags(st) == LET u == \E k \in 1..Len(st.ub) : st.ub[k].n > 0 x == \E k \in 1..Len(st.xb) : st.xb[k].n > 0 g == \E k \in 1..Len(st.g) : st.g[k].n > 0
             IN <<B2(u \/ x \/ g), B2(u), B2(x), B2(g)>>
Dump(st) == <<st.K>> \o Flags(st) \o Cat([k \in 1..Len(st.ub) |-> DumpBox(st.ub[k])], Len(st.ub))
            \o Cat([k \in 1..Len(st.xb) |-> DumpBox(st.xb[k])], Len(st.xb)) \o Cat([k \in 1..Len(st.g) |-> DumpG(st.g[k])], Len(st.g))
(* tilq <<K, dt, A(4), B(4), off(2), W(4) = Hessian in x, M(4) = mixed, V(4) = Hessian in u, wx(2), wu(2), WT(4), wT(2)>>:
   a problem built from a time-invariant system and a cost function: every stage the same, running cost times dt, terminal
   cost as it is.  Observed: all of stage data, then terminal.  Matrices in units 1/64, dt in 1/2.                       *)
Half(A, d) == [i \in 1..Len(A) |-> [j \in 1..Len(A[1]) |-> (A[i][j] * d) \div 2]]
HalfV(v, d) == [i \in 1..Len(v) |-> (v[i] * d) \div 2]
Tilq(a) ==
    LET d == a[2]
        z == Seq1(a, 2, 10) \o Flat(Half(At(a, 16, 2, 2), d)) \o Flat(Half(At(a, 12, 2, 2), d)) \o Flat(Half(At(a, 20, 2, 2), d)) \o HalfV(Seq1(a, 24, 2), d) \o HalfV(Seq1(a, 26, 2), d)
    IN <<a[1]>> \o Cat([k \in 1..a[1] |-> z], a[1]) \o Seq1(a, 28, 6)
Exp(st, e) ==
    IF Refused(st, e) THEN [r |-> <<>>, x |-> 1]
    ELSE [r |-> CASE e.op = "lq" -> Solved(e.a) [] e.op = "dump" -> Dump(st) [] e.op = "tilq" -> Tilq(e.a) [] e.op = "zero" -> <<1>> [] OTHER -> <<>>, x |-> 0]
Match(st, e) == [r |-> e.r, x |-> e.x] = Exp(st, e)
=============================================================================
