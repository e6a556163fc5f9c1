-------------------------------- MODULE Traj --------------------------------
(* Discrete trajectories and arrays (ct_core/types/arrays, ct_core/types/trajectories, common/Interpolation.h,
   common/linspace.h) as a state machine over the list-of-samples model.

   State: two trajectory slots, tr[k] = [t, d, y]: time stamps (ticks of 1/4), data (integers; the harness stores the
   2-vector (v, 3-2v)), interpolation type y (0 = ZOH, 1 = LIN); and two array slots ar[k].
   Every event is [op, a, r, x]: operation, integer arguments, observed results, 1 iff it threw.
   Exp(s, e) is what the specification expects to be observed, Nxt(s, e) the state afterwards.
   Interpolated values are observed times 840 (= lcm 1..8), so that the specification is integer.               *)
EXTENDS Integers, Sequences, FiniteSets

SC == 840
S0 == [tr |-> <<[t |-> <<>>, d |-> <<>>, y |-> 0], [t |-> <<>>, d |-> <<>>, y |-> 0]>>, ar |-> << <<>>, <<>> >>]

Drop(q, n) == SubSeq(q, n + 1, Len(q))
Map(q, F(_)) == [i \in 1..Len(q) |-> F(q[i])]
OK(r) == [r |-> r, x |-> 0]
EXC == [r |-> <<>>, x |-> 1]

(* ---- the meaning of a lookup: a function of the samples and the query time only ---- *)
\* greatest index whose time stamp is not after t (first index if t lies before all of them), 1-based
IdxDef(tm, t) == IF t < tm[1] THEN 1
                 ELSE CHOOSE i \in 1..Len(tm) : tm[i] <= t /\ \A j \in (i + 1)..Len(tm) : tm[j] > t
ValDef(T, t) ==
    IF Len(T.t) = 1 \/ t < T.t[1] THEN SC * T.d[1]
    ELSE LET i == IdxDef(T.t, t) IN
         IF i = Len(T.t) THEN SC * T.d[i]
         ELSE IF T.y = 0 THEN SC * T.d[i]
         ELSE LET gap == T.t[i + 1] - T.t[i]  \* 1..8
              IN SC * T.d[i] + (SC \div gap) * (t - T.t[i]) * (T.d[i + 1] - T.d[i])
Two(v) == <<v, 3 * SC - 2 * v>>                \* both components of the stored vector

Consistent(T) == Len(T.t) = Len(T.d)
SampleObs(v) == <<v, 3 - 2 * v>>
Flat(q) == IF q = <<>> THEN <<>> ELSE [k \in 1..(2 * Len(q)) |-> SampleObs(q[(k + 1) \div 2])[((k + 1) % 2) + 1]]

Set(s, k, T) == [s EXCEPT !.tr[k] = T]
SetA(s, k, q) == [s EXCEPT !.ar[k] = q]
Slot(s, e) == s.tr[e.a[1]]

Exp(s, e) ==
    LET a == e.a IN
    CASE e.op = "mk"    -> IF a[2] = 0 THEN EXC ELSE OK(<<>>)
      [] e.op \in {"mkt", "copy", "assign", "sub", "setT", "setD", "type", "shift", "push", "pop", "efr", "clear",
                   "swap", "wr"} -> OK(<<>>)
      [] e.op = "eval"  -> LET T == Slot(s, e) IN
                           IF T.t = <<>> \/ T.d = <<>> \/ ~Consistent(T) THEN EXC ELSE OK(Two(ValDef(T, a[2])))
      [] e.op = "idx"   -> LET T == Slot(s, e) IN IF T.t = <<>> THEN EXC ELSE OK(<<IdxDef(T.t, a[2]) - 1>>)
      [] e.op = "size"  -> LET T == Slot(s, e) IN IF Consistent(T) THEN OK(<<Len(T.d)>>) ELSE EXC
      [] e.op = "ends"  -> LET T == Slot(s, e) IN
                           OK(SampleObs(T.d[1]) \o SampleObs(T.d[Len(T.d)]) \o
                              <<T.t[1], T.t[Len(T.t)], T.t[Len(T.t)] - T.t[1]>>)
      [] e.op = "at"    -> LET T == Slot(s, e) IN OK(SampleObs(T.d[a[2] + 1]) \o <<T.t[a[2] + 1]>>)
      [] e.op = "dump"  -> LET T == Slot(s, e) IN OK(<<Len(T.t), Len(T.d)>> \o T.t \o Flat(T.d))
      \* ---- arrays
      [] e.op \in {"aset", "amulS", "adivS", "aconst", "aoff", "aerase", "aswap", "acopy", "aassign", "aresize",
                   "apush", "apop", "aclear"} -> OK(<<>>)
      [] e.op \in {"aplus", "aminus"} -> IF Len(s.ar[1]) # Len(s.ar[2]) THEN EXC
                                         ELSE OK([i \in 1..Len(s.ar[1]) |->
                                                    IF e.op = "aplus" THEN s.ar[1][i] + s.ar[2][i]
                                                    ELSE s.ar[1][i] - s.ar[2][i]])
      [] e.op \in {"aplusE", "aminusE"} -> IF Len(s.ar[1]) # Len(s.ar[2]) THEN EXC ELSE OK(<<>>)
      [] e.op = "adump" -> OK(<<Len(s.ar[a[1]])>> \o s.ar[a[1]])
      [] e.op = "aend"  -> LET q == s.ar[a[1]] IN OK(<<q[1], q[Len(q)]>>)
      \* TimeArray(dt, N, t0) and linspace(x, y, N): N equally spaced stamps
      [] e.op = "tarr"  -> IF a[2] = 0 THEN EXC ELSE OK([i \in 1..a[2] |-> a[3] + (i - 1) * a[1]])
      [] e.op = "tconst" -> OK([i \in 1..a[1] |-> a[2]])
      [] e.op = "lin"   -> IF a[3] = 0 THEN EXC ELSE OK([i \in 1..a[3] |-> a[1] + (i - 1) * a[2]])  \* a[2] = spacing
      [] e.op = "eig"   -> OK(s.ar[a[1]])    \* ScalarArray -> Eigen trajectory -> ScalarArray
      [] e.op = "tpose" -> OK([i \in 1..(2 * Len(s.ar[a[1]])) |->
                                 IF i <= Len(s.ar[a[1]]) THEN s.ar[a[1]][i] ELSE 3 - 2 * s.ar[a[1]][i - Len(s.ar[a[1]])]])

Nxt(s, e) ==
    LET a == e.a IN
    CASE e.op = "mk"    -> IF a[2] = 0 THEN s
                           ELSE Set(s, a[1], [t |-> [i \in 1..a[2] |-> a[4] + (i - 1) * a[3]], d |-> SubSeq(a, 6, 5 + a[2]), y |-> a[5]])
      [] e.op = "mkt"   -> Set(s, a[1], [t |-> SubSeq(a, 4, 3 + a[3]), d |-> SubSeq(a, 4 + a[3], 3 + 2 * a[3]), y |-> a[2]])
      [] e.op \in {"copy", "assign"} -> Set(s, a[1], s.tr[a[2]])
      [] e.op = "sub"   -> LET T == s.tr[a[2]] IN
                           Set(s, a[1], [t |-> SubSeq(T.t, a[3] + 1, a[4] + 1), d |-> SubSeq(T.d, a[3] + 1, a[4] + 1), y |-> T.y])
      [] e.op = "setT"  -> [s EXCEPT !.tr[a[1]].t = SubSeq(a, 3, 2 + a[2])]
      [] e.op = "setD"  -> [s EXCEPT !.tr[a[1]].d = SubSeq(a, 3, 2 + a[2])]
      [] e.op = "type"  -> [s EXCEPT !.tr[a[1]].y = a[2]]
      [] e.op = "shift" -> [s EXCEPT !.tr[a[1]].t = [i \in 1..Len(@) |-> @[i] - a[2]]]
      [] e.op = "push"  -> LET T == s.tr[a[1]] IN
                           Set(s, a[1], [T EXCEPT !.t = Append(@, IF a[4] = 1 THEN a[3] ELSE @[Len(@)] + a[3]),
                                                  !.d = Append(@, a[2])])
      [] e.op = "pop"   -> LET T == s.tr[a[1]] IN
                           Set(s, a[1], [T EXCEPT !.t = SubSeq(@, 1, Len(@) - 1), !.d = SubSeq(@, 1, Len(@) - 1)])
      [] e.op = "efr"   -> LET T == s.tr[a[1]] IN
                           Set(s, a[1], [T EXCEPT !.t = [i \in 1..(Len(@) - a[2]) |-> @[i + a[2]] - a[3]], !.d = Drop(@, a[2])])
      [] e.op = "clear" -> LET T == s.tr[a[1]] IN Set(s, a[1], [T EXCEPT !.t = <<>>, !.d = <<>>])
      [] e.op = "swap"  -> [s EXCEPT !.tr[1].t = s.tr[2].t, !.tr[1].d = s.tr[2].d, !.tr[2].t = s.tr[1].t, !.tr[2].d = s.tr[1].d]
      [] e.op = "wr"    -> [s EXCEPT !.tr[a[1]].d[a[2] + 1] = a[3]]
      [] e.op = "aset"  -> SetA(s, a[1], SubSeq(a, 3, 2 + a[2]))
      [] e.op = "amulS" -> SetA(s, a[1], Map(s.ar[a[1]], LAMBDA v : v * a[2]))
      [] e.op = "adivS" -> SetA(s, a[1], Map(s.ar[a[1]], LAMBDA v : v \div a[2]))   \* generated only for exact divisions
      [] e.op = "aconst" -> SetA(s, a[1], Map(s.ar[a[1]], LAMBDA v : a[2]))
      [] e.op = "aoff"  -> SetA(s, a[1], Map(s.ar[a[1]], LAMBDA v : v + a[2]))
      [] e.op = "aerase" -> SetA(s, a[1], Drop(s.ar[a[1]], a[2]))
      [] e.op = "aswap" -> [s EXCEPT !.ar = <<@[2], @[1]>>]
      [] e.op \in {"acopy", "aassign"} -> SetA(s, a[1], s.ar[a[2]])
      [] e.op = "aresize" -> SetA(s, a[1], [i \in 1..a[2] |-> IF i <= Len(s.ar[a[1]]) THEN s.ar[a[1]][i] ELSE a[3]])
      [] e.op = "apush" -> SetA(s, a[1], Append(s.ar[a[1]], a[2]))
      [] e.op = "apop"  -> SetA(s, a[1], SubSeq(s.ar[a[1]], 1, Len(s.ar[a[1]]) - 1))
      [] e.op = "aclear" -> SetA(s, a[1], <<>>)
      [] e.op \in {"aplusE", "aminusE"} ->
             IF Len(s.ar[1]) # Len(s.ar[2]) THEN s
             ELSE SetA(s, 1, [i \in 1..Len(s.ar[1]) |-> IF e.op = "aplusE" THEN s.ar[1][i] + s.ar[2][i] ELSE s.ar[1][i] - s.ar[2][i]])
      [] OTHER -> s

Match(s, e) == e.x = Exp(s, e).x /\ e.r = Exp(s, e).r
=============================================================================
