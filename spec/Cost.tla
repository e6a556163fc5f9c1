-------------------------------- MODULE Cost --------------------------------
(* Cost functions (ct_optcon/costfunction) and activations (ct_core/common/activations).
   3 states, 2 controls, integers; everything a cost function returns is in units of 1/8.
   Term:  <<1, a(3), b(2), c>>                          a'x + b'u + c
          <<2, Q(9), R(4), xr(3), ur(2)>>               dx'Q dx + du'R du
          <<3, P(6), xr(3), ur(2)>>                     du'P dx
          <<4, Q(9), R(4), xr(3), ur(2)>>               (dx'Q dx)(du'R du)
          <<5, Q(9), R(4), track, kind, x0(3) x2(3) x4(3), u0(2) u2(2) u4(2)>>   as 2, reference interpolated in time
          <<6, a(3), b(2), xr(3), ur(2)>>               125 (sum a_i sqrt(dx_i^2 + 16) + ...), for |dx_i| in {0, 3}
   Activation: <<0>> always; <<1, on, off>>; <<2, on, off, slope, start>>; <<3, quarters, period, offset, start, end>>
               (end = -1: none); activations scale intermediate terms, and their derivatives, once; final terms not.
   A cost function is either a sum of terms ("analytical") or the simple quadratic one (symmetric weights); it remembers the point last
   set, with the time shifted by the shift set before.                                                              *)
EXTENDS Integers, Sequences
Slots == 1..3
OK(r) == [r |-> r, x |-> 0]
Err == [r |-> <<>>, x |-> 1]
Sub(a, i, n) == SubSeq(a, i, i + n - 1)
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
RECURSIVE Sum(_)
Sum(v) == IF v = <<>> THEN 0 ELSE Head(v) + Sum(Tail(v))
Abs(z) == IF z < 0 THEN -z ELSE z
Dot(v, w) == Sum([i \in 1..Len(v) |-> v[i] * w[i]])
Minus(v, w) == [i \in 1..Len(v) |-> v[i] - w[i]]
Plus(v, w) == [i \in 1..Len(v) |-> v[i] + w[i]]
Times(k, v) == [i \in 1..Len(v) |-> k * v[i]]
Zero(n) == [j \in 1..n |-> 0]
\* matrices are row-major tuples with n columns
At(M, n, i, j) == M[(i - 1) * n + j]
Row(M, n, i) == Sub(M, (i - 1) * n + 1, n)
MV(M, m, n, v) == [i \in 1..m |-> Dot(Row(M, n, i), v)]
Tr(M, m, n) == [k \in 1..(m * n) |-> At(M, n, ((k - 1) % m) + 1, ((k - 1) \div m) + 1)]
Quad(M, n, v) == Dot(v, MV(M, n, n, v))
Sym(M, n) == Plus(M, Tr(M, n, n))
Outer(v, w) == [k \in 1..(Len(v) * Len(w)) |-> v[((k - 1) \div Len(w)) + 1] * w[((k - 1) % Len(w)) + 1]]
Diag(v) == LET n == Len(v) IN [k \in 1..(n * n) |-> IF ((k - 1) \div n) = ((k - 1) % n) THEN v[((k - 1) % n) + 1] ELSE 0]

(* ---- activations ---- *)
Active(a, t) == CASE a[1] = 0 -> TRUE
                  [] a[1] \in {1, 2} -> t >= a[2] /\ t < a[3]
                  [] a[1] = 3 -> t >= a[5] /\ (a[6] = -1 \/ t < a[6])
                                 /\ LET p == (t - a[5]) % a[3] IN p >= a[4] /\ 4 * p < 4 * a[4] + a[2] * a[3]
                  [] OTHER -> TRUE
Scale(a, t) == IF a[1] = 2 THEN a[5] + a[4] * (t - a[2]) ELSE 1
Factor(a, t) == IF Active(a, t) THEN Scale(a, t) ELSE 0
\* 10^6 exp(-k/2) / sqrt(2 pi) and 10^4 exp(k)
GaussTable(k) == CASE k = 0 -> 398942 [] k = 1 -> 241971 [] k = 4 -> 53991 [] k = 9 -> 4432 [] k = 16 -> 134
ExpTable(k) == CASE k = -4 -> 183 [] k = -3 -> 498 [] k = -2 -> 1353 [] k = -1 -> 3679 [] k = 0 -> 10000 [] k = 1 -> 27183 [] k = 2 -> 73891 [] k = 3 -> 200855 [] k = 4 -> 545982
\* direct use: <<kind, how, parameters..., t>>; 4: bell curve <<mu, sigma>>, 5: barrier <<ub?, lb?, ub, lb, alpha>>
Near(r, v, tol) == Abs(r - v) <= tol
ActBad(a) == LET p == <<a[1]>> \o Sub(a, 3, Len(a) - 3) IN
    a[2] = 1 /\ ((p[1] = 3 /\ 4 * p[4] + p[2] * p[3] > 4 * p[3]) \/ (p[1] = 5 /\ ((p[2] = 1 /\ p[3] = 1 /\ p[5] > p[4]) \/ p[6] < 0)))
ActMatch(a, e) ==
    LET p == <<a[1]>> \o Sub(a, 3, Len(a) - 3) t == a[Len(a)] IN
    IF ActBad(a) THEN e.x = 1
    ELSE /\ e.x = 0
         /\ e.r[1] = (IF Active(p, t) THEN 1 ELSE 0)
         /\ CASE p[1] \in {0, 1, 2, 3} -> Active(p, t) => Near(e.r[2], 1000000 * Scale(p, t), 1)
              [] p[1] = 4 -> LET d == (t - p[2]) * (t - p[2]) IN Near(p[3] * e.r[2], GaussTable(d \div (p[3] * p[3])), 2 * p[3])
              [] p[1] = 5 -> LET al == p[6]
                                 up == IF p[2] = 1 THEN ExpTable(al * (t - p[4])) ELSE 0
                                 lo == IF p[3] = 1 THEN ExpTable(al * (p[5] - t)) ELSE 0 IN
                             Near(e.r[2], up + lo, 2) /\ Near(e.r[3], al * (up - lo), 2 * al + 2) /\ Near(e.r[4], al * al * (up + lo), 2 * al * al + 2)

(* ---- terms ---- *)
QOf(d) == Sub(d, 2, 9)
ROf(d) == Sub(d, 11, 4)
POf(d) == Sub(d, 2, 6)
XRef(d) == CASE d[1] \in {2, 4} -> Sub(d, 15, 3) [] d[1] = 3 -> Sub(d, 8, 3) [] d[1] = 6 -> Sub(d, 7, 3)
URef(d) == CASE d[1] \in {2, 4} -> Sub(d, 18, 2) [] d[1] = 3 -> Sub(d, 11, 2) [] d[1] = 6 -> Sub(d, 10, 2)
\* samples at 0, 2, 4 (even numbers), held outside; kind 0: sample held, 1: linear
Track(s0, s2, s4, kind, t) ==
    IF t <= 0 THEN s0 ELSE IF t >= 4 THEN s4
    ELSE IF t = 2 THEN s2
    ELSE IF kind = 0 THEN (IF t = 1 THEN s0 ELSE s2)
    ELSE [i \in 1..Len(s0) |-> IF t = 1 THEN (s0[i] + s2[i]) \div 2 ELSE (s2[i] + s4[i]) \div 2]
DX(d, x, t) == IF d[1] = 5 THEN Minus(x, Track(Sub(d, 17, 3), Sub(d, 20, 3), Sub(d, 23, 3), d[16], t)) ELSE Minus(x, XRef(d))
DU(d, u, t) == IF d[1] = 5 THEN (IF d[15] = 1 THEN Minus(u, Track(Sub(d, 26, 2), Sub(d, 28, 2), Sub(d, 30, 2), d[16], t)) ELSE u) ELSE Minus(u, URef(d))
Root(z) == IF z = 0 THEN 4 ELSE 5
\* 8 * value, gradient and Hessians
Val(d, x, u, t) == 8 *
    CASE d[1] = 1 -> Dot(Sub(d, 2, 3), x) + Dot(Sub(d, 5, 2), u) + d[7]
      [] d[1] \in {2, 5} -> Quad(QOf(d), 3, DX(d, x, t)) + Quad(ROf(d), 2, DU(d, u, t))
      [] d[1] = 3 -> Dot(DU(d, u, t), MV(POf(d), 2, 3, DX(d, x, t)))
      [] d[1] = 4 -> Quad(QOf(d), 3, DX(d, x, t)) * Quad(ROf(d), 2, DU(d, u, t))
      [] d[1] = 6 -> 125 * (Dot(Sub(d, 2, 3), [i \in 1..3 |-> Root(DX(d, x, t)[i])]) + Dot(Sub(d, 5, 2), [i \in 1..2 |-> Root(DU(d, u, t)[i])]))
GradX(d, x, u, t) == Times(8,
    CASE d[1] = 1 -> Sub(d, 2, 3)
      [] d[1] \in {2, 5} -> MV(Sym(QOf(d), 3), 3, 3, DX(d, x, t))
      [] d[1] = 3 -> MV(Tr(POf(d), 2, 3), 3, 2, DU(d, u, t))
      [] d[1] = 4 -> Times(Quad(ROf(d), 2, DU(d, u, t)), MV(Sym(QOf(d), 3), 3, 3, DX(d, x, t)))
      [] d[1] = 6 -> [i \in 1..3 |-> 25 * d[i + 1] * DX(d, x, t)[i]])
GradU(d, x, u, t) == Times(8,
    CASE d[1] = 1 -> Sub(d, 5, 2)
      [] d[1] \in {2, 5} -> MV(Sym(ROf(d), 2), 2, 2, DU(d, u, t))
      [] d[1] = 3 -> MV(POf(d), 2, 3, DX(d, x, t))
      [] d[1] = 4 -> Times(Quad(QOf(d), 3, DX(d, x, t)), MV(Sym(ROf(d), 2), 2, 2, DU(d, u, t)))
      [] d[1] = 6 -> [i \in 1..2 |-> 25 * d[i + 4] * DU(d, u, t)[i]])
Curv(z) == IF z = 0 THEN 250 ELSE 128   \* 8 * 125 * 16 / root^3
HessX(d, x, u, t) ==
    CASE d[1] \in {1, 3} -> Zero(9)
      [] d[1] \in {2, 5} -> Times(8, Sym(QOf(d), 3))
      [] d[1] = 4 -> Times(8 * Quad(ROf(d), 2, DU(d, u, t)), Sym(QOf(d), 3))
      [] d[1] = 6 -> Diag([i \in 1..3 |-> d[i + 1] * Curv(DX(d, x, t)[i])])
HessU(d, x, u, t) ==
    CASE d[1] \in {1, 3} -> Zero(4)
      [] d[1] \in {2, 5} -> Times(8, Sym(ROf(d), 2))
      [] d[1] = 4 -> Times(8 * Quad(QOf(d), 3, DX(d, x, t)), Sym(ROf(d), 2))
      [] d[1] = 6 -> Diag([i \in 1..2 |-> d[i + 4] * Curv(DU(d, u, t)[i])])
HessUX(d, x, u, t) ==   \* 2 x 3
    CASE d[1] \in {1, 2, 5, 6} -> Zero(6)
      [] d[1] = 3 -> Times(8, POf(d))
      [] d[1] = 4 -> Times(8, Outer(MV(Sym(ROf(d), 2), 2, 2, DU(d, u, t)), MV(Sym(QOf(d), 3), 3, 3, DX(d, x, t))))
WithX(d, r) == CASE d[1] \in {2, 4} -> Sub(d, 1, 14) \o r \o Sub(d, 18, 2) [] d[1] = 3 -> Sub(d, 1, 7) \o r \o Sub(d, 11, 2)
                 [] d[1] = 6 -> Sub(d, 1, 6) \o r \o Sub(d, 10, 2) [] OTHER -> d
WithU(d, r) == CASE d[1] \in {2, 4} -> Sub(d, 1, 17) \o r [] d[1] = 3 -> Sub(d, 1, 10) \o r [] d[1] = 6 -> Sub(d, 1, 9) \o r [] OTHER -> d

(* ---- cost functions ---- *)
\* q: simple cost <<Q(9), R(4), xn(3), un(2), xf(3), Qf(9)>>, or <<>>
None == [on |-> FALSE, q |-> <<>>, I |-> <<>>, T |-> <<>>, x |-> Zero(3), u |-> Zero(2), t |-> 0, sh |-> 0, pend |-> <<>>]
S0 == [i \in Slots |-> None]
SumI(c, F(_, _, _, _), n) ==
    LET RECURSIVE go(_)
        go(k) == IF k = 0 THEN Zero(n) ELSE Plus(go(k - 1), Times(Factor(c.I[k].a, c.t), F(c.I[k].d, c.x, c.u, c.t))) IN go(Len(c.I))
SumT(c, F(_, _, _, _), n) ==
    LET RECURSIVE go(_)
        go(k) == IF k = 0 THEN Zero(n) ELSE Plus(go(k - 1), F(c.T[k].d, c.x, c.u, c.t)) IN go(Len(c.T))
Val1(d, x, u, t) == <<Val(d, x, u, t)>>
SDX(c) == Minus(c.x, Sub(c.q, 14, 3))
SDU(c) == Minus(c.u, Sub(c.q, 17, 2))
SDF(c) == Minus(c.x, Sub(c.q, 19, 3))
Query(c, w) ==
    IF w = 12 THEN c.x \o c.u \o <<c.t>>
    ELSE IF c.q # <<>> THEN
        CASE w = 0 -> <<4 * Quad(Sub(c.q, 1, 9), 3, SDX(c)) + 4 * Quad(Sub(c.q, 10, 4), 2, SDU(c))>>
          [] w = 1 -> <<4 * Quad(Sub(c.q, 22, 9), 3, SDF(c))>>
          [] w = 2 -> Times(8, MV(Sub(c.q, 1, 9), 3, 3, SDX(c)))
          [] w = 3 -> Times(8, Sub(c.q, 1, 9))
          [] w = 4 -> Times(8, MV(Sub(c.q, 10, 4), 2, 2, SDU(c)))
          [] w = 5 -> Times(8, Sub(c.q, 10, 4))
          [] w = 6 -> Zero(6)
          [] w = 7 -> Times(8, MV(Sub(c.q, 22, 9), 3, 3, SDF(c)))
          [] w = 8 -> Times(8, Sub(c.q, 22, 9))
    ELSE
        CASE w = 0 -> SumI(c, Val1, 1) [] w = 2 -> SumI(c, GradX, 3) [] w = 3 -> SumI(c, HessX, 9)
          [] w = 4 -> SumI(c, GradU, 2) [] w = 5 -> SumI(c, HessU, 4) [] w = 6 -> SumI(c, HessUX, 6)
          [] w = 1 -> SumT(c, Val1, 1) [] w = 7 -> SumT(c, GradX, 3) [] w = 8 -> SumT(c, HessX, 9)
          [] w = 9 -> SumT(c, GradU, 2) [] w = 10 -> SumT(c, HessU, 4) [] w = 11 -> SumT(c, HessUX, 6)
\* arguments <<..., n, activation (n), term>>, activation length at position p
ActOf(a, p) == Sub(a, p + 1, a[p])
TermOf(a, p) == Sub(a, p + 1 + a[p], Len(a) - p - a[p])
\* a file: references are read, the constant of a linear term is not
Loaded(d) == IF d[1] = 1 THEN Sub(d, 1, 6) \o <<0>> ELSE d
List(c, fin) == IF fin = 1 THEN c.T ELSE c.I
\* numbers of the pending terms (in file order) which are of the kind asked for
Only(p, fin) == SelectSeq(p, LAMBDA q : q.f = fin)
NumDiffSure(c, w) == LET g == Query(c, w) f == Query(c, 0)[1]
                         n == Sum([i \in 1..Len(g) |-> Abs(g[i])]) IN n > 0 /\ 10 * n >= Abs(f)
Exp(s, e) ==
    LET a == e.a IN
    CASE e.op = "q" -> OK(Query(s[a[1]], a[2]))
      [] e.op = "nd" -> OK(<<1>>)
      [] e.op = "ref" -> LET d == List(s[a[1]], a[2])[a[3]].d IN IF d[1] = 2 THEN OK(XRef(d)) ELSE Err
      [] e.op = "name" -> OK(<<a[3]>>)
      [] OTHER -> OK(<<>>)
Nxt(s, e) ==
    LET a == e.a IN
    CASE e.op = "new" -> [s EXCEPT ![a[1]] = [None EXCEPT !.on = TRUE, !.q = Sub(a, 2, Len(a) - 1)]]
      [] e.op = "add" -> LET t == [d |-> TermOf(a, 3), a |-> ActOf(a, 3), h |-> TRUE] IN
                         IF a[2] = 1 THEN [s EXCEPT ![a[1]].T = Append(@, t)] ELSE [s EXCEPT ![a[1]].I = Append(@, t)]
      \* the user reconfigures a term through his pointer to it
      [] e.op = "upd" -> LET c == s[a[1]] IN
                         IF a[3] > Len(List(c, a[2])) \/ ~List(c, a[2])[a[3]].h \/ List(c, a[2])[a[3]].d[1] # TermOf(a, 4)[1] THEN s
                         ELSE LET t == [d |-> TermOf(a, 4), a |-> ActOf(a, 4), h |-> TRUE] IN
                              IF a[2] = 1 THEN [s EXCEPT ![a[1]].T[a[3]] = t] ELSE [s EXCEPT ![a[1]].I[a[3]] = t]
      [] e.op = "pend" -> [s EXCEPT ![a[1]].pend = Append(@, [f |-> a[2], t |-> [d |-> Loaded(TermOf(a, 3)), a |-> ActOf(a, 3), h |-> TRUE]])]
      [] e.op = "load" -> LET p == s[a[1]].pend
                              Pick(fin) == LET o == Only(p, fin) IN [k \in 1..Len(o) |-> o[k].t] IN
                          [s EXCEPT ![a[1]].I = Pick(0), ![a[1]].T = Pick(1), ![a[1]].pend = <<>>]
      [] e.op = "set" -> [s EXCEPT ![a[1]].x = Sub(a, 2, 3), ![a[1]].u = Sub(a, 5, 2), ![a[1]].t = a[7] + s[a[1]].sh]
      [] e.op = "shift" -> [s EXCEPT ![a[1]].sh = a[2]]
      [] e.op = "refx" -> LET r == Sub(a, 2, 3) IN
                          IF s[a[1]].q # <<>> THEN [s EXCEPT ![a[1]].q = Sub(@, 1, 13) \o r \o Sub(@, 17, 14)]
                          ELSE [s EXCEPT ![a[1]].I = [k \in 1..Len(@) |-> [@[k] EXCEPT !.d = WithX(@, r)]]]
      [] e.op = "refu" -> LET r == Sub(a, 2, 2) IN
                          IF s[a[1]].q # <<>> THEN [s EXCEPT ![a[1]].q = Sub(@, 1, 16) \o r \o Sub(@, 19, 12)]
                          ELSE [s EXCEPT ![a[1]].I = [k \in 1..Len(@) |-> [@[k] EXCEPT !.d = WithU(@, r)]]]
      [] e.op = "reff" -> LET r == Sub(a, 2, 3) IN
                          IF s[a[1]].q # <<>> THEN [s EXCEPT ![a[1]].q = Sub(@, 1, 18) \o r \o Sub(@, 22, 9)]
                          ELSE [s EXCEPT ![a[1]].T = [k \in 1..Len(@) |-> [@[k] EXCEPT !.d = WithX(@, r)]]]
      [] e.op = "clone" -> [s EXCEPT ![a[2]] = [s[a[1]] EXCEPT !.I = [k \in 1..Len(@) |-> [@[k] EXCEPT !.h = FALSE]],
                                                             !.T = [k \in 1..Len(@) |-> [@[k] EXCEPT !.h = FALSE]], !.pend = <<>>]]
      [] OTHER -> s
Match(s, e) == CASE e.op = "act" -> ActMatch(e.a, e)
                 [] e.op = "nd" /\ ~NumDiffSure(s[e.a[1]], e.a[2]) -> e.x = 0
                 [] OTHER -> LET q == Exp(s, e) IN e.x = q.x /\ e.r = q.r
=============================================================================
