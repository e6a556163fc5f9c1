-------------------------------- MODULE Res --------------------------------
(* Rational numbers as residues modulo the prime P: exact sums, products and divisions by 2, 3, 4, 6 in 32-bit integers.
   Two different rationals collide with probability 1/P only; the harnesses report the residue of the exact value.    *)
EXTENDS Integers, Sequences
P == 32749
Half == 16375
Sixth == 27291
R(i) == i % P
Add(a, b) == (a + b) % P
Sub(a, b) == (a - b) % P
Mul(a, b) == (a * b) % P
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE IF e % 2 = 1 THEN Mul(b, Pow(b, e - 1)) ELSE Pow(Mul(b, b), e \div 2)
Div(a, b) == Mul(a, Pow(b % P, P - 2))
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE (q[1] + Sum(Tail(q))) % P
=============================================================================
