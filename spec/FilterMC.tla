------------------------------ MODULE FilterMC ------------------------------
(* Bounded model of Filter: two states, one output.  Covariances stay symmetric; the short covariance update is the
   Joseph form for the gain used, and that gain is the optimal one; for affine models the unscented filter's sigma points
   have exactly the moments of the linear propagation; uncorrelated scalar measurements may be taken in either order;
   changing weights or models changes neither estimate nor covariance.                                               *)
EXTENDS Filter, Json
CONSTANTS Gen, Depth
VARIABLES st, hist, n
vars == <<st, hist, n>>
View == <<st, n>>
E(op, a) == [op |-> op, a |-> a]
F1 == <<0, 1, 1, 0, 1, 1, 0, 1, 0, 0, 0, 0, 0, 1, 0, 1, 1, 0, 1>>
F2 == <<0, 1, 0, 1, 1, 0, 1, 0, 2, 1, 0, 0, 1, 1, 1, 0, 1, 1, 1>>
F3 == <<1, 0, 1, -1, 2, 1, 1, 0, 1, 0, 1, 0, -1, 2, 0, 0, 1, 0, 1>>
H1 == <<0, 1, 0, 1, 0, 1, 0, 1>>
H2 == <<1, 1, 1, 0, 0, 2, 0, 1>>
H3 == <<0, 0, 1, 2, 1, 1, 0, 1>>
Sy == {E("sys", F1), E("sys", F2), E("sys", F3)}
Me == {E("meas", H1), E("meas", H2), E("meas", H3)}
Steps == {E("pred", <<1, 1, 2, k, 0>>) : k \in {0, 3}} \cup {E("upd", <<3, 2, 1>>)} \cup {E("setQ", <<2, 1, 1, 3, 2>>), E("setR", <<3, 1>>), E("setx", <<1, -3, 2>>)} \cup Sy \cup Me
Start == <<E("dim", <<2, 1>>), E("sys", F1), E("meas", H1), E("new", <<0, 4, 8, 0, 0, 1, 2, 2, 1, 1, 3, 1>>)>>
RECURSIVE Run(_, _)
Run(s, es) == IF es = <<>> THEN s ELSE Run(Nxt(s, es[1]), Tail(es))
Init == st = Run(S0, Start) /\ n = 0 /\ hist = Start
\* the gain needs an invertible innovation covariance (nearly always, modulo P)
Innov(s) == LET H == HxX(s.h, s.x) W == HxW(s.h, s.x) IN MA(MM(MM(H, s.cov), Tr(H)), MM(MM(W, s.R), Tr(W)))
\* for the real code the weight is chosen so that the results stay representable: R such that S = 2^k is left to the random histories
Next == /\ n < Depth
        /\ \E e \in (IF Gen THEN {x \in Steps : x.op # "upd"} ELSE Steps) :
            /\ e.op = "upd" => Innov(st)[1][1] # 0
            /\ st' = Nxt(st, e)
            /\ n' = n + 1
            /\ hist' = IF Gen THEN hist \o <<e, E("get", <<>>)>> ELSE <<>>
            /\ Gen => PrintT("SCRIPT " \o ToJson(hist'))
Symmetric == st.cov = Tr(st.cov)
Ready == Innov(st)[1][1] # 0
KOf(s) == Gain(MM(s.cov, Tr(HxX(s.h, s.x))), Innov(s))
Joseph == Ready => LET K == KOf(st) H == HxX(st.h, st.x) W == HxW(st.h, st.x) J == MB(Eye(2), MM(K, H)) IN
    EkfU(st, <<5>>, 1).cov = MA(MM(MM(J, st.cov), Tr(J)), MM(MM(K, MM(MM(W, st.R), Tr(W))), Tr(K)))
\* any other gain K + D has covariance larger by D S D'
Optimal == Ready => \A D \in { << <<1>>, <<0>> >>, << <<1>>, <<2>> >> } :
    LET K == MA(KOf(st), D) H == HxX(st.h, st.x) W == HxW(st.h, st.x) J == MB(Eye(2), MM(K, H)) IN
    MA(MM(MM(J, st.cov), Tr(J)), MM(MM(K, MM(MM(W, st.R), Tr(W))), Tr(K))) = MA(EkfU(st, <<5>>, 1).cov, MM(MM(D, Innov(st)), Tr(D)))
\* sigma points against moments, with alpha = 1, beta = 2, kappa = 2, gamma = 2 and covariance L L'
Sigma == LET L == << <<2, 0>>, <<1, 3>> >>
             u == [st EXCEPT !.ty = 1, !.cov = MM(L, Tr(L)), !.ut = <<1, 2, 2, 2>>, !.f.q = <<0, 0>>, !.h.r = <<0>>]
             a == UkfP(u, 1, Half, 3, L) b == UkfP(u, 1, Half, 3, <<>>)
             ua == UkfU(Taken(u, a), <<5>>, 1) ub == UkfU(Taken(u, b), <<5>>, 1) IN
         GoodL(u, L) /\ a.x = b.x /\ a.cov = b.cov /\ a.sg.spread = b.sg.spread /\ ua.x = ub.x /\ ua.cov = ub.cov
Commute == LET h(c) == [st.h EXCEPT !.A = c, !.r = <<0>>, !.w = 0]
               q1(s) == Taken(s, EkfU([s EXCEPT !.h = h(<< <<1, 0>> >>)], <<3>>, 1))
               q2(s) == Taken(s, EkfU([s EXCEPT !.h = h(<< <<1, 2>> >>)], <<4>>, 1))
               a == q2(q1(st)) b == q1(q2(st)) IN a.x = b.x /\ a.cov = b.cov
Frame == [][/\ (st'.x # st.x \/ st'.cov # st.cov) => st'.f = st.f /\ st'.h = st.h /\ st'.Q = st.Q /\ st'.R = st.R
            /\ (st'.cov # st.cov) => st'.Q = st.Q /\ st'.R = st.R]_vars
=============================================================================
