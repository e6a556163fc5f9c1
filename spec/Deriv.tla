------------------------------- MODULE Deriv -------------------------------
(* Derivative objects: numerical (one- and two-sided, fixed or dynamic size) and automatic ones of a vector function, and
   the automatic linearisers of continuous- and discrete-time systems; linear solvers without pivoting.
   A function is given by 12 coefficients per output over the monomials Mono in up to three inputs (a, b, c); systems have
   the states (a, b) and the control c. An object: [k kind, n inputs, m outputs, c coefficients]; kinds 0/1 numerical,
   2/3 of dynamic size, 4 automatic, 5 of dynamic size, 6 lineariser, 7 discrete-time lineariser. Derivatives times 1000. *)
EXTENDS Integers, Sequences

Mono == << <<0,0,0>>, <<1,0,0>>, <<0,1,0>>, <<0,0,1>>, <<2,0,0>>, <<1,1,0>>, <<1,0,1>>, <<0,2,0>>, <<0,1,1>>, <<0,0,2>>, <<1,1,1>>, <<2,1,0>> >>
Pw(x, e) == IF e <= 0 THEN 1 ELSE IF e = 1 THEN x ELSE x * x
X3(x, n) == [i \in 1..3 |-> IF i <= n THEN x[i] ELSE 0]
\* monomial with exponents e at x, and its derivatives
Mon(e, x) == Pw(x[1], e[1]) * Pw(x[2], e[2]) * Pw(x[3], e[3])
RECURSIVE SumM(_, _, _)
SumM(F(_), c, j) == IF j = 0 THEN 0 ELSE c[j] * F(Mono[j]) + SumM(F, c, j - 1)
Coef(o, k) == SubSeq(o.c, 12 * (k - 1) + 1, 12 * k)
Less(e, i) == [e EXCEPT ![i] = @ - 1]
D1(e, i, x) == IF e[i] = 0 THEN 0 ELSE e[i] * Mon(Less(e, i), x)
D2(e, i, j, x) == IF e[i] = 0 THEN 0 ELSE e[i] * D1(Less(e, i), j, x)
Val(o, k, x) == LET F(e) == Mon(e, x) IN SumM(F, Coef(o, k), 12)
Dif(o, k, i, x) == LET F(e) == D1(e, i, x) IN SumM(F, Coef(o, k), 12)
Dif2(o, k, i, j, x) == LET F(e) == D2(e, i, j, x) IN SumM(F, Coef(o, k), 12)
RECURSIVE SumK(_, _)
SumK(F(_), m) == IF m = 0 THEN 0 ELSE F(m) + SumK(F, m - 1)
Jac(o, x) == [q \in 1..(o.m * o.n) |-> 1000 * Dif(o, (q - 1) \div o.n + 1, ((q - 1) % o.n) + 1, x)]
Hes(o, x, l) == [q \in 1..(o.n * o.n) |-> LET F(k) == l[k] * Dif2(o, k, (q - 1) \div o.n + 1, ((q - 1) % o.n) + 1, x) IN 1000 * SumK(F, o.m)]

OK(r) == [r |-> r, x |-> 0]
Thrown == [r |-> <<>>, x |-> 1]
None == [k |-> 9, n |-> 0, m |-> 0, c |-> <<>>]
S0 == <<None, None, None>>
Exp(s, e) ==
    LET a == e.a IN
    CASE e.op \in {"lu", "ldl"} -> OK([q \in 1..(a[1] * a[2]) |-> 1000 * a[2 + a[1] * a[1] + q]])
      [] e.op \in {"new", "upd", "cl"} -> OK(<<>>)
      [] OTHER -> LET o == s[a[1]] x == X3(SubSeq(a, 2, 1 + o.n), o.n) l == SubSeq(a, 2 + o.n, 1 + o.n + o.m) IN
         CASE e.op = "f0" -> IF o.k > 5 THEN Thrown ELSE OK([k \in 1..o.m |-> Val(o, k, x)])
           [] e.op = "jac" -> OK(Jac(o, x))
           [] e.op = "sj" -> IF o.k \in 4..5 THEN OK(Jac(o, x)) ELSE Thrown
           [] e.op \in {"hes", "sh"} -> IF o.k \in 4..5 THEN OK(Hes(o, x, l)) ELSE Thrown
Nxt(s, e) ==
    LET a == e.a IN
    CASE e.op = "new" -> [s EXCEPT ![a[1]] = [k |-> a[2], n |-> a[3], m |-> a[4], c |-> SubSeq(a, 5, 28)]]
      [] e.op = "upd" -> [s EXCEPT ![a[1]] = [k |-> @.k, n |-> a[2], m |-> a[3], c |-> SubSeq(a, 4, 27)]]
      [] e.op = "cl" -> [s EXCEPT ![a[2]] = s[a[1]]]
      [] OTHER -> s
Match(s, e) == LET q == Exp(s, e) IN e.x = q.x /\ e.r = q.r
=============================================================================
