------------------------------- MODULE Filter -------------------------------
(* State estimators (ct_optcon/filter): extended, unscented and steady-state Kalman filter, their system and measurement
   models, and the disturbance-augmented systems.  n = 2 or 3 states, one input, m = 1 or 2 outputs; numbers are residues
   (module Res), except for the steady-state filter (module Mat, units of 1/64).
   System      f(x, u, dt, t) = A x + b u + dt t g + q x1 xn + t x1 p     noise derivative  V + s x1 I      (user model)
               f(x, u, dt, t) = x + dt (A x + b u + t g + q x1 xn + t x1 p)  noise derivative  V            (CTSystemModel)
   Measurement h(x, t) = C x + t e + r x1 x2                              noise derivative  W + w x2 I
   Unscented filter: the covariances of the noise are the noise derivatives; the sigma points of the prediction are also
   those of the update.  A script step that carries a square root L of the covariance (checked here) is followed sigma
   point by sigma point; without one the models have to be affine, and the moments say everything.
   The steady-state filter is given the solution of its Riccati equation as a certificate, which is checked here.      *)
EXTENDS Res, TLC
M == INSTANCE Mat
NoF == [A |-> <<>>]
NoD == [on |-> FALSE]
S0 == [n |-> 0, m |-> 0, ty |-> 0, f |-> NoF, h |-> NoF, x |-> <<>>, cov |-> <<>>, Q |-> <<>>, R |-> <<>>, ut |-> <<>>, sg |-> <<>>,
       ss |-> NoD, ds |-> <<NoD, NoD>>]
OK(r) == [r |-> r, x |-> 0]
Fail == [r |-> <<>>, x |-> 1]
\* ---- matrices of residues
RECURSIVE Dot(_, _, _)
Dot(a, b, k) == IF k = 0 THEN 0 ELSE Add(Mul(a[k], b[k]), Dot(a, b, k - 1))
Col(B, j) == TLCEval([k \in 1..Len(B) |-> B[k][j]])
Tr(A) == TLCEval([j \in 1..Len(A[1]) |-> [i \in 1..Len(A) |-> A[i][j]]])
MM(A, B) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(B[1]) |-> Dot(A[i], Col(B, j), Len(B))]])
MV(A, v) == TLCEval([i \in 1..Len(A) |-> Dot(A[i], v, Len(v))])
MA(A, B) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(A[1]) |-> Add(A[i][j], B[i][j])]])
MB(A, B) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(A[1]) |-> Sub(A[i][j], B[i][j])]])
MK(k, A) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(A[1]) |-> Mul(k, A[i][j])]])
VA(a, b) == TLCEval([i \in 1..Len(a) |-> Add(a[i], b[i])])
VB(a, b) == TLCEval([i \in 1..Len(a) |-> Sub(a[i], b[i])])
VK(k, a) == TLCEval([i \in 1..Len(a) |-> Mul(k, a[i])])
Out(a, b) == TLCEval([i \in 1..Len(a) |-> [j \in 1..Len(b) |-> Mul(a[i], b[j])]])
Eye(k) == [i \in 1..k |-> [j \in 1..k |-> IF i = j THEN 1 ELSE 0]]
ZeroM(r, c) == [i \in 1..r |-> [j \in 1..c |-> 0]]
Inv(S) == IF Len(S) = 1 THEN << <<Div(1, S[1][1])>> >>
          ELSE M!One({ << <<Mul(d, S[2][2]), Mul(d, R(-S[1][2]))>>, <<Mul(d, R(-S[2][1])), Mul(d, S[1][1])>> >> :
                       d \in {Div(1, Sub(Mul(S[1][1], S[2][2]), Mul(S[1][2], S[2][1])))} })
RECURSIVE Flat(_)
Flat(A) == IF A = <<>> THEN <<>> ELSE A[1] \o Flat(Tail(A))
\* r x c matrix / vector with common denominator d in a, after position o
Mx(a, o, r, c, d) == M!One({ TLCEval([i \in 1..r |-> [j \in 1..c |-> Mul(R(a[o + (i - 1) * c + j]), v)]]) : v \in {Div(1, d)} })
Vx(a, o, k, d) == M!One({ TLCEval([i \in 1..k |-> Mul(R(a[o + i]), v)]) : v \in {Div(1, d)} })

\* ---- models.  sys: kind, A, b, g, q, p, V, s, D   meas: kind, C, e, r, W, w, D   (D divides V resp. W)
Sys(a, n) == LET k == n * n IN
    [kind |-> a[1], A |-> Mx(a, 1, n, n, 1), b |-> Vx(a, 1 + k, n, 1), g |-> Vx(a, 1 + k + n, n, 1), q |-> Vx(a, 1 + k + 2 * n, n, 1),
     p |-> Vx(a, 1 + k + 3 * n, n, 1), V |-> Mx(a, 1 + k + 4 * n, n, n, a[3 + 2 * k + 4 * n]), s |-> R(a[2 + 2 * k + 4 * n])]
Meas(a, n, m) == LET k == m * n IN
    [kind |-> a[1], A |-> Mx(a, 1, m, n, 1), e |-> Vx(a, 1 + k, m, 1), r |-> Vx(a, 1 + k + m, m, 1),
     W |-> Mx(a, 1 + k + 2 * m, m, m, a[3 + k + 2 * m + m * m]), w |-> R(a[2 + k + 2 * m + m * m])]
Rate(f, x, u, t, dg) == LET n == Len(x) IN
    TLCEval([i \in 1..n |-> Sum(<<Dot(f.A[i], x, n), Mul(f.b[i], u), Mul(Mul(dg, t), f.g[i]), Mul(f.q[i], Mul(x[1], x[n])), Mul(Mul(f.p[i], t), x[1])>>)])
RateX(f, x, t) == LET n == Len(x) IN
    TLCEval([i \in 1..n |-> [j \in 1..n |-> Sum(<<f.A[i][j], IF j = 1 THEN Add(Mul(f.q[i], x[n]), Mul(f.p[i], t)) ELSE 0, IF j = n THEN Mul(f.q[i], x[1]) ELSE 0>>)]])
Dyn(f, x, u, dt, t) == IF f.kind = 0 THEN Rate(f, x, u, t, dt) ELSE VA(x, VK(dt, Rate(f, x, u, t, 1)))
DynX(f, x, dt, t) == IF f.kind = 0 THEN RateX(f, x, t) ELSE MA(Eye(Len(x)), MK(dt, RateX(f, x, t)))
DynV(f, x) == MA(f.V, MK(IF f.kind = 0 THEN Mul(f.s, x[1]) ELSE 0, Eye(Len(x))))
Hx(h, x, t) == TLCEval([k \in 1..Len(h.A) |-> Sum(<<Dot(h.A[k], x, Len(x)), Mul(t, h.e[k]), Mul(h.r[k], Mul(x[1], x[2]))>>)])
HxX(h, x) == TLCEval([k \in 1..Len(h.A) |-> [j \in 1..Len(x) |-> Add(h.A[k][j], IF j = 1 THEN Mul(h.r[k], x[2]) ELSE IF j = 2 THEN Mul(h.r[k], x[1]) ELSE 0)]])
HxW(h, x) == MA(h.W, MK(Mul(h.w, x[2]), Eye(Len(h.A))))

\* ---- extended Kalman filter: results [x, cov]
EkfP(s, u, dt, t) == M!One({ [x |-> Dyn(s.f, s.x, u, dt, t), cov |-> MA(MM(MM(F, s.cov), Tr(F)), MM(MM(G, MK(dt, s.Q)), Tr(G)))] :
                             F \in {DynX(s.f, s.x, dt, t)}, G \in {DynV(s.f, s.x)} })
Gain(PH, S) == MM(PH, Inv(S))
EkfU(s, y, t) == M!One({ M!One({ [x |-> VA(s.x, MV(K, VB(y, Hx(s.h, s.x, t)))), cov |-> MB(s.cov, MM(MM(K, H), s.cov))] :
                                 K \in {Gain(MM(s.cov, Tr(H)), MA(MM(MM(H, s.cov), Tr(H)), MM(MM(W, s.R), Tr(W))))} }) :
                         H \in {HxX(s.h, s.x)}, W \in {HxW(s.h, s.x)} })
\* ---- unscented Kalman filter.  ut = <<alpha, beta, kappa, gamma>> (gamma = 0: not rational)
Csum(s) == Mul(Mul(s.ut[1], s.ut[1]), Add(R(s.n), s.ut[3]))
Wm(s) == [i \in 1..(2 * s.n + 1) |-> IF i = 1 THEN Div(Sub(Csum(s), s.n), Csum(s)) ELSE Div(1, Mul(2, Csum(s)))]
Wc(s) == [Wm(s) EXCEPT ![1] = Sum(<<Wm(s)[1], 1, R(-Mul(s.ut[1], s.ut[1])), s.ut[2]>>)]
RECURSIVE WSum(_, _, _), WOut(_, _, _, _)
WSum(w, X, k) == IF k = 0 THEN [i \in 1..Len(X[1]) |-> 0] ELSE VA(VK(w[k], X[k]), WSum(w, X, k - 1))
\* sum of w_k a_k b_k'
WOut(w, Xa, Xb, k) == IF k = 0 THEN ZeroM(Len(Xa[1]), Len(Xb[1])) ELSE MA(MK(w[k], Out(Xa[k], Xb[k])), WOut(w, Xa, Xb, k - 1))
Dev(X, c) == TLCEval([k \in 1..Len(X) |-> VB(X[k], c)])
Points(s, L) == TLCEval([k \in 1..(2 * s.n + 1) |-> IF k = 1 THEN s.x ELSE IF k <= s.n + 1 THEN VA(s.x, VK(s.ut[4], Col(L, k - 1)))
                                                     ELSE VB(s.x, VK(s.ut[4], Col(L, k - 1 - s.n)))])
\* results [x, cov, sg]; sg = [pts, spread]: the propagated sigma points (or none) and their covariance
UkfP(s, u, dt, t, L) ==
    IF L = <<>>
    THEN M!One({ M!One({ [x |-> x1, cov |-> MA(sp, DynV(s.f, x1)), sg |-> [pts |-> <<>>, spread |-> sp]] : sp \in {MM(MM(F, s.cov), Tr(F))}, x1 \in {Dyn(s.f, s.x, u, dt, t)} }) :
                 F \in {DynX(s.f, s.x, dt, t)} })
    ELSE M!One({ M!One({ M!One({ [x |-> x1, cov |-> MA(sp, DynV(s.f, x1)), sg |-> [pts |-> X1, spread |-> sp]] : sp \in {WOut(Wc(s), Dev(X1, x1), Dev(X1, x1), 2 * s.n + 1)} }) :
                         x1 \in {WSum(Wm(s), X1, 2 * s.n + 1)} }) :
                 X1 \in { M!One({ TLCEval([k \in 1..(2 * s.n + 1) |-> Dyn(s.f, X[k], u, dt, t)]) : X \in {Points(s, L)} }) } })
UkfU(s, z, t) ==
    M!One({ M!One({ [x |-> VA(s.x, MV(K, VB(z, q.y))), cov |-> MB(s.cov, MM(MM(K, q.S), Tr(K))), sg |-> s.sg] : K \in {Gain(q.Pxy, q.S)} }) :
       q \in { IF s.sg.pts = <<>>
               THEN M!One({ [y |-> Hx(s.h, s.x, t), S |-> MA(MM(MM(H, s.sg.spread), Tr(H)), HxW(s.h, s.x)), Pxy |-> MM(s.sg.spread, Tr(H))] : H \in {HxX(s.h, s.x)} })
               ELSE M!One({ M!One({ [y |-> y, S |-> MA(WOut(Wc(s), Dev(Y, y), Dev(Y, y), 2 * s.n + 1), HxW(s.h, s.x)),
                                     Pxy |-> WOut(Wc(s), Dev(s.sg.pts, s.x), Dev(Y, y), 2 * s.n + 1)] : y \in {WSum(Wm(s), Y, 2 * s.n + 1)} }) :
                            Y \in { TLCEval([k \in 1..(2 * s.n + 1) |-> Hx(s.h, s.sg.pts[k], t)]) } }) } })
\* the claims a script may make: L L' = covariance, gamma^2 = alpha^2 (n + kappa)
Affine(s) == \A i \in 1..s.n : s.f.q[i] = 0
AffineH(s) == \A i \in 1..s.m : s.h.r[i] = 0
GoodL(s, L) == IF L = <<>> THEN Affine(s) ELSE MM(L, Tr(L)) = s.cov /\ s.ut[4] # 0 /\ Mul(s.ut[4], s.ut[4]) = Csum(s)

\* new: type (0 extended, 1 unscented), 4 alpha, 4 beta, 4 kappa, 4 gamma, x0, P0, D
New(s, a) == LET n == s.n P0 == Mx(a, 5 + n, n, n, a[6 + n + n * n]) IN
    [s EXCEPT !.ty = a[1], !.x = Vx(a, 5, n, 1), !.cov = P0, !.Q = MK(2, P0), !.R = Eye(s.m), !.ut = Vx(a, 1, 4, 4), !.sg = <<>>]
\* pred: u, dt numerator, dt denominator, k (t = k dt), has L, L, D
PredL(s, a) == IF a[5] = 0 THEN <<>> ELSE Mx(a, 5, s.n, s.n, a[6 + s.n * s.n])
Pred(s, a) == M!One({ IF s.ty = 0 THEN EkfP(s, R(a[1]), dt, Mul(R(a[4]), dt)) ELSE UkfP(s, R(a[1]), dt, Mul(R(a[4]), dt), PredL(s, a)) : dt \in {Div(R(a[2]), a[3])} })
\* upd: 2 t, y, D
Upd(s, a) == LET y == Vx(a, 1, s.m, a[2 + s.m]) t == Mul(R(a[1]), Half) IN IF s.ty = 0 THEN EkfU(s, y, t) ELSE UkfU(s, y, t)
Show(s, q) == q.x \o (IF s.ty = 0 THEN Flat(q.cov) ELSE <<>>)
Taken(s, q) == IF s.ty = 0 THEN [s EXCEPT !.x = q.x, !.cov = q.cov] ELSE [s EXCEPT !.x = q.x, !.cov = q.cov, !.sg = q.sg]

\* ---- steady-state filter.  ssn: n, m, A, b, C, e, Q, R, P, K (units 1/64), x0
SsOf(a) == LET n == a[1] m == a[2] o1 == 2 + n * n o2 == o1 + n o3 == o2 + m * n o4 == o3 + m o5 == o4 + n * n o6 == o5 + m * m o7 == o6 + n * n o8 == o7 + n * m IN
    [on |-> TRUE, n |-> n, m |-> m, A |-> M!At(a, 2, n, n), b |-> M!Seq1(a, o1, n), C |-> M!At(a, o2, m, n), e |-> M!Seq1(a, o3, m), Q |-> M!At(a, o4, n, n),
     R |-> M!At(a, o5, m, m), P |-> M!At(a, o6, n, n), K |-> M!At(a, o7, n, m), x |-> M!Seq1(a, o8, n), it |-> 1000, conv |-> FALSE]
\* K S = P C',  P = A (P - K C P) A' + Q,  the products being exact in these units
Certificate(q) ==
    LET PC == M!MM(q.P, M!T(q.C)) S == M!MA(M!MM(q.C, PC), q.R) IN
    /\ M!MM(q.K, S) = PC
    /\ q.P = M!MA(M!MM(M!MM(q.A, M!MS(q.P, M!MM(q.K, M!T(PC)))), M!T(q.A)), q.Q)
SsP(q, a) == M!VA(M!MV(q.A, q.x), TLCEval([i \in 1..q.n |-> q.b[i] * a[1]]))
SsY(q, a) == TLCEval([k \in 1..q.m |-> 64 * a[1 + k] - M!Dot(q.C[k], q.x, q.n) \div 64 - q.e[k] * a[1]])
SsU(q, a) == M!VA(q.x, M!MV(q.K, SsY(q, a)))
Near(o, v) == Len(o) = Len(v) /\ \A i \in 1..Len(v) : o[i] - 16 * v[i] \in -4..4

\* ---- disturbed systems.  A system: A (2x2), b (2), c;  a controller: kind (0 none, 1 constant v, 2 k x + v t), v, k (2)
\* d = [sys (index of the nominal system object), ctl]; the nominal systems live in ds.sys
Ctl(c, x, t) == IF c[1] = 1 THEN c[2] ELSE c[3] * x[1] + c[4] * x[2] + c[2] * t
Nom(p, x, t, u) == <<p[1] * x[1] + p[2] * x[2] + p[5] * u + p[7] * t, p[3] * x[1] + p[4] * x[2] + p[6] * u - p[7] * t>>
Exp(s, e) ==
    LET a == e.a IN
    CASE e.op = "pred" -> IF s.ty = 1 /\ ~GoodL(s, PredL(s, a)) THEN OK(<<"script: not a square root, or not affine">>) ELSE OK(Show(s, Pred(s, a)))
      [] e.op = "upd" -> IF s.ty = 1 /\ (s.sg = <<>> \/ (s.sg.pts = <<>> /\ ~AffineH(s))) THEN OK(<<"script: measurement not affine">>) ELSE OK(Show(s, Upd(s, a)))
      [] e.op = "get" -> OK(Show(s, s))
      [] e.op = "ssn" -> IF Certificate(SsOf(a)) THEN OK(<<>>) ELSE OK(<<"script: not a solution">>)
      [] e.op = "ssp" -> OK(SsP(s.ss, a))
      [] e.op = "ssu" -> IF s.ss.it = 1 /\ ~s.ss.conv THEN Fail ELSE OK(SsU(s.ss, a))
      [] e.op = "ssg" -> OK(s.ss.x)
      [] e.op = "dsf" -> LET d == s.ds[a[1]] IN
            IF d.ctl[1] = 0 THEN Fail
            ELSE OK([i \in 1..2 |-> Nom(d.p, <<a[2], a[3]>>, a[5], Ctl(d.ctl, <<a[2], a[3]>>, a[5]) + a[4])[i]] \o <<0>>)
      [] e.op = "dsd" -> LET d == s.ds[a[1]] IN OK([i \in 1..2 |-> Nom(d.p, <<a[2], a[3]>>, a[5], a[6] + a[4])[i]] \o <<0>>)
      [] OTHER -> OK(<<>>)
Tol(op) == op \in {"ssp", "ssu", "ssg"}
Match(s, e) == LET q == Exp(s, e) IN e.x = q.x /\ IF Tol(e.op) THEN Near(e.r, q.r) ELSE e.r = q.r
Nxt(s, e) ==
    LET a == e.a IN
    CASE e.op = "dim" -> [S0 EXCEPT !.n = a[1], !.m = a[2]]
      [] e.op = "sys" -> [s EXCEPT !.f = Sys(a, s.n)]
      [] e.op = "meas" -> [s EXCEPT !.h = Meas(a, s.n, s.m)]
      [] e.op = "new" -> New(s, a)
      [] e.op = "setQ" -> [s EXCEPT !.Q = Mx(a, 0, s.n, s.n, a[1 + s.n * s.n])]
      [] e.op = "setR" -> [s EXCEPT !.R = Mx(a, 0, s.m, s.m, a[1 + s.m * s.m])]
      [] e.op = "setx" -> [s EXCEPT !.x = Vx(a, 0, s.n, a[1 + s.n])]
      [] e.op = "pred" -> Taken(s, Pred(s, a))
      [] e.op = "upd" -> Taken(s, Upd(s, a))
      [] e.op = "ssn" -> [S0 EXCEPT !.ss = SsOf(a)]
      [] e.op = "ssp" -> [s EXCEPT !.ss.x = SsP(s.ss, a)]
      [] e.op = "ssu" -> IF s.ss.it = 1 /\ ~s.ss.conv THEN s ELSE [s EXCEPT !.ss.x = SsU(s.ss, a), !.ss.conv = TRUE]
      [] e.op = "ssi" -> [s EXCEPT !.ss.it = a[1]]
      [] e.op = "sss" -> [s EXCEPT !.ss.x = TLCEval([i \in 1..s.ss.n |-> 64 * a[i]])]
      \* dsn: nominal system (7), controller (4): slot 1; dsc: slot 2 becomes a clone of slot 1
      [] e.op = "dsn" -> [S0 EXCEPT !.ds = <<[on |-> TRUE, p |-> SubSeq(a, 1, 7), ctl |-> SubSeq(a, 8, 11)], NoD>>]
      [] e.op = "dsc" -> [s EXCEPT !.ds[2] = s.ds[1]]
      [] e.op = "dss" -> [s EXCEPT !.ds[a[1]].ctl = SubSeq(a, 2, 5)]
      [] e.op = "dsm" -> [s EXCEPT !.ds[1].p = a]
      [] OTHER -> s
=============================================================================
