-------------------------------- MODULE Rbd --------------------------------
(* The robot models of ct_models and the spatial algebra of iit/rbd as a system of operations with a state: the current robot, the
   joint positions its dynamics objects remember, the link inertias put into it, and an inertia object.  Mechanics: module RbdBase.   *)
EXTENDS RbdBase
-----------------------------------------------------------------------------
OK(r) == [r |-> r, x |-> 0]
S0 == [b |-> 1, q |-> <<>>, jq |-> <<>>, ins |-> 0, im |-> [m |-> 1, mc |-> Z3, I |-> Z9]]
Sub3(a, i, n) == SubSeq(a, i, i + n - 1)
Exp(s, e) ==
    LET a == e.a  b == Bot[s.b]  n == b.nj IN
    CASE e.op = "par" -> OK(LET f[i \in 0..Len(b.I)] == IF i = 0 THEN <<>> ELSE f[i - 1] \o b.I[i] IN f[Len(b.I)] \o <<b.tm>>)
      [] e.op = "tf" -> LET T == TLCEval(Xf(b, Sub3(a, 3, n), a[2])) IN OK(CASE a[1] = 0 -> Hom(T) [] a[1] = 1 -> Mot(T) [] OTHER -> Frc(T))
      [] e.op = "jac" -> OK(Jac(b, Sub3(a, 2, n), a[1]))
      [] e.op = "com" -> OK(Com(b, Sub3(a, 1, n), s.ins))
      \* fixed base.  a = <<with q?, ext>> q qd qdd
      [] e.op = "id" -> OK(Rnea(b, IF a[1] = 1 THEN Sub3(a, 3, n) ELSE s.q, Sub3(a, 3 + n, n), Sub3(a, 3 + 2 * n, n), Fixed, s.ins, a[2]).tau)
      [] e.op = "G" -> OK(Rnea(b, IF a[1] = 1 THEN Sub3(a, 3, n) ELSE s.q, Zn(b), Zn(b), Fixed, s.ins, 0).tau)
      [] e.op = "C" -> OK(Rnea(b, IF a[1] = 1 THEN Sub3(a, 3, n) ELSE s.q, Sub3(a, 3 + n, n), Zn(b), Still, s.ins, 0).tau)
      [] e.op = "fd" -> OK([i \in 1..n |-> 1000000 * a[2 + 2 * n + i]])
      \* floating base.  a = <<with q?, ext>> q qd qdd v acc g
      [] e.op \in {"idb", "Gb", "Cb"} ->
            LET q == IF a[1] = 1 THEN Sub3(a, 3, n) ELSE s.q
                qd == Sub3(a, 3 + n, n)  qdd == Sub3(a, 3 + 2 * n, n)
                v == Sub3(a, 3 + 3 * n, 6)  acc == Sub3(a, 9 + 3 * n, 6)  g == Sub3(a, 15 + 3 * n, 6)
                r == TLCEval(CASE e.op = "idb" -> Rnea(b, q, qd, qdd, Float(v, acc, g), s.ins, a[2])
                               [] e.op = "Gb" -> Rnea(b, q, Zn(b), Zn(b), Float(Z6, Z6, g), s.ins, 0)
                               [] OTHER -> Rnea(b, q, qd, Zn(b), Float(v, Z6, Z6), s.ins, 0)) IN
            OK(r.base \o r.tau)
      [] e.op = "idf" -> OK([i \in 1..(6 + n) |-> 0])
      [] e.op = "fdb" -> OK([i \in 1..n |-> 1000000 * a[2 + 2 * n + i]] \o [i \in 1..6 |-> 1000000 * a[8 + 3 * n + i]])
      [] e.op = "M" -> OK(Mass(b, Sub3(a, 1, n), s.ins))
      [] e.op = "L" -> LET m == n + 6 * b.fl IN OK([k \in 1..(2 * m * m) |-> IF k > m * m /\ (((k - 1) - m * m) \div m) = ((k - 1) % m) THEN 1000000 ELSE 0])
      [] e.op = "qo" -> OK(QuadVal(Sub3(a, 1, 3), Sub3(a, 4, 12), [i \in 1..4 |-> Mul(a[15 + i] % P, INV10)]))
      [] e.op = "qA" -> OK(QuadJac(Sub3(a, 1, 3), Sub3(a, 4, 12), [i \in 1..4 |-> Mul(a[15 + i] % P, INV10)], 0, 12))
      [] e.op = "qB" -> OK(QuadJac(Sub3(a, 1, 3), Sub3(a, 4, 12), [i \in 1..4 |-> Mul(a[15 + i] % P, INV10)], 12, 4))
      [] e.op \in AlgOps -> OK(Alg(s, e))
      [] e.op \in ImOps -> OK(ImRep(ImNxt(s, e)))
      [] OTHER -> OK(<<>>)
Nxt(s, e) ==
    LET a == e.a  n == Bot[s.b].nj IN
    CASE e.op = "bot" -> [S0 EXCEPT !.b = a[1] + 1, !.q = Zn(Bot[a[1] + 1])]
      [] e.op = "ins" -> [s EXCEPT !.ins = a[1]]
      [] e.op = "set" -> [s EXCEPT !.q = Sub3(a, 2, n)]
      [] e.op \in {"id", "G", "C", "fd", "idb", "Gb", "Cb", "idf", "fdb"} /\ a[1] = 1 -> [s EXCEPT !.q = Sub3(a, 3, n)]
      [] e.op \in ImOps -> [s EXCEPT !.im = ImNxt(s, e)]
      [] OTHER -> s
Near(a, b_) == Len(a) = Len(b_) /\ \A i \in 1..Len(a) : a[i] - b_[i] \in -1..1
Match(s, e) == LET m == Exp(s, e) IN
    /\ e.x = m.x
    /\ IF e.op \in {"par", "fd", "fdb", "idf", "L"} THEN Near(e.r, m.r) ELSE e.r = m.r
=============================================================================
