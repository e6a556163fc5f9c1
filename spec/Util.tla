-------------------------------- MODULE Util --------------------------------
(* Services of ct_core: quantisation with carried rest, random perturbations, planes and their estimation, ellipsoids, stop
   watches, stored control trajectories.  Real numbers in sixteenths.  Slots 0..2 of every kind. *)
EXTENDS Integers, Sequences, FiniteSets
Slots == 0..2
Idx == 0..7
NoQ == [on |-> 0, b |-> 0, q |-> 16, m |-> 0, rest |-> [i \in Idx |-> 0]]
NoT == [a |-> <<>>, z |-> <<>>]                              \* time stamps of start and stop, <<>> after a reset
S0 == [Q |-> [k \in Slots |-> NoQ], P |-> [k \in Slots |-> <<0, 0, 0, 0>>], T |-> [k \in 0..3 |-> NoT], clk |-> 0,
       C |-> [k \in Slots |-> [u |-> <<>>, x |-> <<>>]], L |-> [k \in Slots |-> [t |-> <<>>, v |-> <<>>]]]
\* ---- quantisation: whole multiples of the interval leave, the rest stays for the next call with that index
Abs(v) == IF v < 0 THEN -v ELSE v
Sgn(v) == IF v < 0 THEN -1 ELSE 1
Quants(o, v) == IF o.m = 0 THEN v \div o.q ELSE Sgn(v) * ((2 * Abs(v) + o.q) \div (2 * o.q))       \* down; nearest, halves away from 0
Whole(o, i, v) == o.q * Quants(o, v + o.rest[i])
Quant(o, i, v) == [o EXCEPT !.rest[i] = v + @ - Whole(o, i, v)]
RECURSIVE QuantAll(_, _, _), WholeAll(_, _, _)
QuantAll(o, i, v) == IF v = <<>> THEN o ELSE QuantAll(Quant(o, i, v[1]), i + 1, Tail(v))
WholeAll(o, i, v) == IF v = <<>> THEN <<>> ELSE <<Whole(o, i, v[1]) + o.b>> \o WholeAll(o, i + 1, Tail(v))
\* ---- plane a x + b y + c z = d;  least squares with d = 1
Points(a) == [i \in 1..(Len(a) \div 3) |-> SubSeq(a, 3 * i - 2, 3 * i)]
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
SC == 100000
Dot3(p, c) == p[1] * c[1] + p[2] * c[2] + p[3] * c[3]
Normal(p, c, j) == Sum([i \in 1..Len(p) |-> p[i][j] * (Dot3(p[i], c) - SC)], Len(p))
Slack(p) == 1 + Sum([i \in 1..Len(p) |-> 5 * (Abs(p[i][1]) + Abs(p[i][2]) + Abs(p[i][3]))], Len(p))
Fits(p, c) == c[4] = SC /\ \A j \in 1..3 : Abs(Normal(p, c, j)) <= Slack(p)
\* ---- ellipsoid: |A S' (x - x0)|^2 - 1 with centre x0, A and S (row by row)
MV(M, v) == [i \in 1..3 |-> M[3 * i - 2] * v[1] + M[3 * i - 1] * v[2] + M[3 * i] * v[3]]
Tr(M) == [k \in 1..9 |-> M[3 * ((k - 1) % 3) + ((k - 1) \div 3) + 1]]
Sq(v) == v[1] * v[1] + v[2] * v[2] + v[3] * v[3]
Ell(x0, A, S, x) == Sq(MV(A, MV(Tr(S), [i \in 1..3 |-> x[i] - x0[i]]))) - 1
\* rotation matrix of the quaternion w, x, y, z times its squared length
RotM(q) == LET w == q[1] x == q[2] y == q[3] z == q[4] IN
    << w*w + x*x - y*y - z*z, 2*(x*y - w*z), 2*(x*z + w*y), 2*(x*y + w*z), w*w - x*x + y*y - z*z, 2*(y*z - w*x), 2*(x*z - w*y), 2*(y*z + w*x), w*w - x*x - y*y + z*z >>
Len2(q) == q[1]*q[1] + q[2]*q[2] + q[3]*q[3] + q[4]*q[4]

OK(r) == [r |-> r, x |-> 0]
Err == [r |-> <<>>, x |-> 1]
Others(j) == CASE j = 1 -> <<2, 3>> [] j = 2 -> <<1, 3>> [] j = 3 -> <<1, 2>>
Exp(s, e) ==
    LET a == e.a IN
    CASE e.op = "qv" -> OK(<<Whole(s.Q[a[1]], a[2], a[3]) + s.Q[a[1]].b>>)
      [] e.op = "qvec" -> OK(WholeAll(s.Q[a[1]], 0, SubSeq(a, 2, 4)))
      \* all values in the support; entries are drawn separately; location and spread; the same for vectors and for perturbed values
      [] e.op \in {"uni", "gauss"} -> OK(<<1, 1, 1, 1, 1, 1>>)
      [] e.op = "pget" -> OK(s.P[a[1]] \o s.P[a[1]])
      [] e.op = "pcoef" -> IF a[2] \in 0..3 THEN OK(<<s.P[a[1]][a[2] + 1]>>) ELSE Err
      \* the solution times its coefficient
      [] e.op = "psolve" -> LET p == s.P[a[1]] o == Others(a[2]) IN OK(<<16 * p[4] - p[o[1]] * a[3] - p[o[2]] * a[4]>>)
      [] e.op = "pest" -> IF Len(a) < 9 THEN Err ELSE OK(<<"least squares">>)
      [] e.op = "ell" -> OK(<<Ell(SubSeq(a, 1, 3), SubSeq(a, 4, 12), SubSeq(a, 13, 21), SubSeq(a, 22, 24))>>)
      [] e.op = "quat" -> OK(RotM(a))
      [] e.op = "tget" -> LET w == s.T[a[1]] IN OK(<<IF w.z = <<>> THEN 0 ELSE w.z[1] - w.a[1]>>)
      [] e.op = "cget" -> LET o == s.C[a[1]] IN OK(<<Len(o.u)>> \o o.u \o <<Len(o.x)>> \o o.x)
      [] e.op = "crun" -> Err
      [] e.op = "lget" -> OK(s.L[a[1]].v)
      [] OTHER -> OK(<<>>)
Match(s, e) == e.x = Exp(s, e).x /\ IF e.op = "pest" /\ e.x = 0 THEN Fits(Points(e.a), e.r) ELSE e.r = Exp(s, e).r
Nxt(s, e) ==
    LET a == e.a IN
    CASE e.op = "qnew" -> [s EXCEPT !.Q[a[1]] = [on |-> 1, b |-> a[2], q |-> a[3], m |-> a[4], rest |-> [i \in Idx |-> 0]]]
      [] e.op = "qcp" -> [s EXCEPT !.Q[a[2]] = s.Q[a[1]]]
      [] e.op = "qv" -> [s EXCEPT !.Q[a[1]] = Quant(@, a[2], a[3])]
      [] e.op = "qvec" -> [s EXCEPT !.Q[a[1]] = QuantAll(@, 0, SubSeq(a, 2, 4))]
      [] e.op = "qreset" -> [s EXCEPT !.Q[a[1]].rest = [i \in Idx |-> 0]]
      [] e.op = "pnew" -> [s EXCEPT !.P[a[1]] = SubSeq(a, 3, 6)]                                  \* a[2]: which way of setting
      [] e.op = "pcp" -> [s EXCEPT !.P[a[2]] = s.P[a[1]]]
      [] e.op = "pcoef" -> IF a[2] \in 0..3 THEN [s EXCEPT !.P[a[1]][a[2] + 1] = a[3]] ELSE s     \* reads, then writes
      [] e.op = "clk" -> [s EXCEPT !.clk = @ + a[1]]
      \* watches 0, 1 run on the clock, 2, 3 on the given time
      [] e.op = "tstart" -> [s EXCEPT !.T[a[1]].a = <<IF a[1] < 2 THEN s.clk ELSE a[2]>>]
      [] e.op = "tstop" -> [s EXCEPT !.T[a[1]].z = <<IF a[1] < 2 THEN s.clk ELSE a[2]>>]
      [] e.op = "treset" -> [s EXCEPT !.T[a[1]] = NoT]
      [] e.op = "cnew" -> [s EXCEPT !.C[a[1]] = [u |-> SubSeq(a, 3, 2 + a[2]), x |-> SubSeq(a, 3 + a[2], Len(a))]]
      [] e.op = "cu" -> [s EXCEPT !.C[a[1]].u = Tail(a)]
      [] e.op = "cx" -> [s EXCEPT !.C[a[1]].x = Tail(a)]
      [] e.op = "ccp" -> [s EXCEPT !.C[a[2]] = s.C[a[1]]]
      [] e.op = "lset" -> [s EXCEPT !.L[a[1]].v = Tail(a)]
      [] e.op = "lswap" -> [s EXCEPT !.L[a[1]].v = s.L[a[2]].v, !.L[a[2]].v = s.L[a[1]].v]
      [] OTHER -> s
=============================================================================
