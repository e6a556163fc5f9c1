------------------------------ MODULE Settings ------------------------------
(* Settings and the files they are loaded from. A settings object of class c is the tuple of its fields; a file is a partial
   function from fields to values, given below a name space (what other name spaces contain does not matter). Loading takes
   every entry of the file over, leaves settings without an entry as they are (or sets their documented default), and is
   refused when a required entry is missing; what the object contains after a refusal is left open.
   Classes: 1 line search, 2 LQ solver, 3 nonlinear optimal control (with 1 and 2 as sections), 4 SNOPT, 5 IPOPT,
   6 NLP solver (with 4 or 5, whichever is selected), 7 automatic differentiation, 8 multiple shooting (with 6 and 7),
   9 MPC, 10 steady-state Kalman filter. Real numbers in thousandths, flags 0/1, named values by position. *)
EXTENDS Integers, Sequences

N(c) == << 8, 2, 33, 5, 21, 29, 13, 53, 11, 3 >>[c]
\* a file as a function on 1..N: <<>> no entry, <<v>> an entry
RECURSIVE File(_, _)
File(a, n) == IF a = <<>> THEN [i \in 1..n |-> <<>>] ELSE [File(SubSeq(a, 3, Len(a)), n) EXCEPT ![a[1]] = <<a[2]>>]
Has(f, i) == f[i] # <<>>
Or(f, i, v) == IF Has(f, i) THEN f[i][1] ELSE v
Sec(f, k, n) == SubSeq(f, k + 1, k + n)
All(f, n) == \A i \in 1..n : Has(f, i)

RECURSIVE Need(_, _), New(_, _, _)
\* no required entry is missing
Need(c, f) ==
    CASE c = 1 -> All(f, 5)
      [] c \in {2, 3, 10} -> TRUE
      [] c = 4 -> All(f, 5)
      [] c = 5 -> All(f, 5)
      [] c = 6 -> All(f, 3) /\ (IF f[1][1] = 0 THEN Need(5, Sec(f, 3, 21)) ELSE Need(4, Sec(f, 24, 5)))
      [] c = 7 -> All(f, 13)
      [] c = 8 -> All(f, 11) /\ Need(6, Sec(f, 11, 29)) /\ Need(7, Sec(f, 40, 13))
      [] c = 9 -> All(f, 11)
Keep(f, o) == [i \in 1..Len(o) |-> Or(f, i, o[i])]
\* the settings after loading file f into settings o
New(c, f, o) ==
    CASE c = 1 -> [Keep(f, o) EXCEPT ![7] = Or(f, 7, 0), ![8] = Or(f, 8, f[3][1])]
      [] c \in {2, 4, 5, 9} -> Keep(f, o)
      [] c = 3 -> Keep(Sec(f, 0, 23), Sec(o, 0, 23))
                  \o (IF Need(1, Sec(f, 23, 8)) THEN New(1, Sec(f, 23, 8), Sec(o, 23, 8)) ELSE Sec(o, 23, 8))
                  \o Keep(Sec(f, 31, 2), Sec(o, 31, 2))
      [] c = 6 -> Keep(Sec(f, 0, 3), Sec(o, 0, 3))
                  \o (IF f[1][1] = 0 THEN New(5, Sec(f, 3, 21), Sec(o, 3, 21)) ELSE Sec(o, 3, 21))
                  \o (IF f[1][1] = 1 THEN New(4, Sec(f, 24, 5), Sec(o, 24, 5)) ELSE Sec(o, 24, 5))
      [] c = 7 -> IF f[13][1] = 2 THEN [Keep(f, o) EXCEPT ![13] = o[13]] ELSE Keep(f, o)     \* an unknown compiler is not taken over
      [] c = 8 -> Keep(Sec(f, 0, 11), Sec(o, 0, 11)) \o New(6, Sec(f, 11, 29), Sec(o, 11, 29)) \o New(7, Sec(f, 40, 13), Sec(o, 40, 13))
      [] c = 10 -> << Or(f, 1, 0), Or(f, 2, 0), Or(f, 3, 1000) >>

LsOk(v) == v[3] > 0 /\ v[4] > 0 /\ v[4] < 1000 /\ v[8] > 0
NlOk(v) == /\ v[14] > 0 /\ v[15] > 0 /\ v[16] > 0
           /\ ~(v[16] > 1 /\ v[22] = 1)
           /\ v[8] <= 100 /\ v[17] <= 100
           /\ LsOk(Sec(v, 23, 8))
DmsOk(v) == /\ v[1] \in 1..1000 /\ v[2] > 0 /\ v[3] \in 1..32
            /\ v[7] >= 10 /\ v[7] <= v[2]
            /\ v[9] > 0 /\ v[9] <= 100000
            /\ v[10] > 0 /\ v[10] <= 1000 /\ v[11] > 0 /\ v[11] <= 1000
Ok(c, v) == CASE c = 1 -> LsOk(v) [] c = 3 -> NlOk(v) [] c = 8 -> DmsOk(v)
B(b) == IF b THEN 1 ELSE 0
Steps(h, dt) == LET k == (2 * h + dt) \div (2 * dt) IN IF k < 1 THEN 1 ELSE k
ClosedLoop == << 0, 1, 1, 0, 1, 0, 1 >>        \* GNMS, ILQR, MS_ILQR, SS_OL, SS_CL, GNMS_M_OL, GNMS_M_CL
Single == << 0, 1, 0, 1, 1, 0, 0 >>
RECURSIVE Ent(_, _, _)
Ent(a, i, j) == IF a = <<>> THEN 0 ELSE IF a[1] = i /\ a[2] = j THEN a[3] ELSE Ent(SubSeq(a, 4, Len(a)), i, j)

\* settings no file was loaded into; Open: not a whole number of thousandths (tolerances), not judged
Open == 1000000003
DLS == << 0, 10, 1000, 500, 0, 10, 0, 1000 >>
DSN == << 500, 500, 0, 0, Open >>
DIP == << 200, 0, 0, 5, Open, 1, Open, Open, Open, Open, 1, 1, 0, 0, Open, Open, 10000, 0, 0, 0, 0 >>
DCP == << 0, 0, 0, 0, 0, 0, 0, 0, 0, 20000, 0, 1, 0 >>
Dfl(c) ==
    CASE c = 1 -> DLS [] c = 2 -> << 10, 0 >> [] c = 4 -> DSN [] c = 5 -> DIP [] c = 6 -> << 0, 0, 0 >> \o DIP \o DSN [] c = 7 -> DCP
      [] c = 3 -> << Open, 0, Open, Open, 0, 1000, 100, 4, 0, 0, 1, 0, 0, 1, 1, 1, 4, 0, 0, 1, 1, 0, 0 >> \o DLS \o << 10, 0 >>
      [] c = 8 -> << 30, 5000, 1, 0, 0, 0, 100, 1, 10, Open, Open, 0, 0, 0 >> \o DIP \o DSN \o DCP
      [] c = 9 -> << 0, 0, 1, 1, 0, 0, 1000, 0, 0, 700, 0 >>
OK(r) == [r |-> r, x |-> 0]
Thrown == [r |-> <<>>, x |-> 1]
S0 == [k \in 0..2 |-> [c \in 1..10 |-> <<>>]]
FileOf(e) == File(SubSeq(e.a, 5, Len(e.a)), N(e.a[2]))
Exp(s, e) ==
    LET a == e.a IN
    CASE e.op \in {"init", "set", "cp"} -> OK(<<>>)
      [] e.op = "dfl" -> OK(Append(Dfl(a[1]), 1))                                            \* with the verdict of its own check
      [] e.op = "get" -> OK(s[a[1]][a[2]])
      [] e.op = "load" -> IF Need(a[2], FileOf(e)) THEN OK(<<>>) ELSE Thrown
      [] e.op = "ok" -> OK(<<B(Ok(a[2], s[a[1]][a[2]]))>>)
      [] e.op = "K" -> IF a[2] < 0 THEN Thrown ELSE OK(<<Steps(a[2], s[a[1]][3][14])>>)
      [] e.op = "alg" -> LET v == s[a[1]][3] IN OK(<<ClosedLoop[v[22] + 1], Single[v[22] + 1], v[14]>>)
      [] e.op = "mat" -> OK([q \in 1..(a[1] * a[2]) |-> (IF a[4] = 0 THEN 1 ELSE a[4]) * Ent(SubSeq(a, 5, Len(a)), (q - 1) \div a[2], (q - 1) % a[2])])
      [] e.op = "sc" -> IF a[3] = 1 THEN OK(<<a[4], a[4]>>) ELSE IF a[1] = 1 THEN OK(<<a[5], a[5]>>) ELSE Thrown
Nxt(s, e) ==
    LET a == e.a IN
    CASE e.op = "init" -> [s EXCEPT ![a[1]][a[2]] = SubSeq(a, 3, Len(a))]
      [] e.op = "set" -> [s EXCEPT ![a[1]][a[2]][a[3]] = a[4]]
      [] e.op = "cp" -> [s EXCEPT ![a[2]][a[3]] = s[a[1]][a[3]]]
      [] e.op = "load" -> [s EXCEPT ![a[1]][a[2]] = IF Need(a[2], FileOf(e)) THEN New(a[2], FileOf(e), @) ELSE <<>>]
      [] OTHER -> s
Match(s, e) == LET q == Exp(s, e) IN e.x = q.x /\ IF e.op = "dfl" THEN Len(e.r) = Len(q.r) /\ \A i \in 1..Len(q.r) : q.r[i] = Open \/ e.r[i] = q.r[i] ELSE e.r = q.r
=============================================================================
