"""C14: state estimators and the models they work on (spec/Filter.tla)."""
from fractions import Fraction as Fr
from math import lcm
ASSUMPTIONS = ['2 or 3 states, one input, 1 or 2 outputs; polynomial, time dependent models; data chosen so that every result is a '
               'rational number with denominator dividing 2^18 3^5, compared as residues modulo a prime',
               'steady-state filter: results within 4/1024 of those of a certified solution of its Riccati equation',
               'unscented filter: every update follows a prediction; nonlinear models where the square root of the covariance is rational',
               'the noise derivative of the unscented filter is its noise covariance, and the sigma points are not redrawn for the update (as documented by the code)']
DMAX = 2 ** 18 * 3 ** 5


def cfg(gen, depth):
    inv = '' if gen == 'TRUE' else 'INVARIANT Symmetric Joseph Optimal Sigma Commute\nPROPERTY Frame\n'
    return ('INIT Init\nNEXT Next\nVIEW View\nCHECK_DEADLOCK FALSE\n%sCONSTANTS Gen = %s Depth = %d\n' % (inv, gen, depth))


# ---------------------------------------------------------------- exact matrices
def mm(A, B): return [[sum(A[i][k] * B[k][j] for k in range(len(B))) for j in range(len(B[0]))] for i in range(len(A))]
def tr(A): return [list(r) for r in zip(*A)]
def ma(A, B, s=1): return [[a + s * b for a, b in zip(x, y)] for x, y in zip(A, B)]
def mk(k, A): return [[k * a for a in r] for r in A]
def mv(A, v): return [sum(a * b for a, b in zip(r, v)) for r in A]
def eye(n, k=1): return [[Fr(k) if i == j else Fr(0) for j in range(n)] for i in range(n)]
def inv(S):
    if len(S) == 1: return [[1 / S[0][0]]]
    d = S[0][0] * S[1][1] - S[0][1] * S[1][0]
    return [[S[1][1] / d, -S[0][1] / d], [-S[1][0] / d, S[0][0] / d]]
def flat(A): return [a for r in A for a in r]
def det(A):
    if len(A) == 1: return A[0][0]
    return sum((-1) ** j * A[0][j] * det([r[:j] + r[j + 1:] for r in A[1:]]) for j in range(len(A)))
def pd(A): return all(det([r[:k] for r in A[:k]]) > 0 for k in range(1, len(A) + 1))


class Reject(Exception):
    pass


def frac(vals):
    """numerators and common denominator"""
    d = 1
    for v in vals: d = lcm(d, Fr(v).denominator)
    if d > 2 ** 29 or any(abs(v * d) > 2 ** 30 for v in vals): raise Reject
    return [int(v * d) for v in vals] + [d]


def fits(*vals):
    for v in vals:
        if DMAX % Fr(v).denominator or abs(v) > 10 ** 6: raise Reject


class Sim:
    """Follows the filter in rational arithmetic, to choose data with representable results (not a judge)."""
    def __init__(self, n, m):
        self.n, self.m = n, m

    def rate(self, x, u, t, dg):
        f, n = self.f, self.n
        return [sum(f['A'][i][j] * x[j] for j in range(n)) + f['b'][i] * u + dg * t * f['g'][i] + f['q'][i] * x[0] * x[-1] + f['p'][i] * t * x[0] for i in range(n)]

    def dyn(self, x, u, dt, t):
        if self.f['kind'] == 0: return self.rate(x, u, t, dt)
        return [a + dt * b for a, b in zip(x, self.rate(x, u, t, 1))]

    def dynx(self, x, dt, t):
        f, n = self.f, self.n
        F = [[Fr(f['A'][i][j]) + (f['q'][i] * x[-1] + f['p'][i] * t if j == 0 else 0) + (f['q'][i] * x[0] if j == n - 1 else 0) for j in range(n)] for i in range(n)]
        return F if f['kind'] == 0 else ma(eye(n), mk(dt, F))

    def dynv(self, x): return ma(self.f['V'], eye(self.n, self.f['s'] * x[0] if self.f['kind'] == 0 else 0))
    def hx(self, x, t):
        h = self.h
        return [sum(c * v for c, v in zip(h['C'][k], x)) + t * h['e'][k] + h['r'][k] * x[0] * x[1] for k in range(self.m)]

    def hxx(self, x):
        h = self.h
        return [[h['C'][k][j] + (h['r'][k] * x[1] if j == 0 else h['r'][k] * x[0] if j == 1 else 0) for j in range(self.n)] for k in range(self.m)]

    def hw(self, x): return ma(self.h['W'], eye(self.m, self.h['w'] * x[1]))


def sm(r): return r.choice([0, 0, 1, -1, 2])


def sysop(r, z, aff=False, V=None, ct=None):
    n = z.n
    kind = (r.choice([0, 1]) if n == 2 else 0) if ct is None else ct
    f = dict(kind=kind, A=[[r.choice([0, 1, -1, 1, 2]) for _ in range(n)] for _ in range(n)], b=[sm(r) for _ in range(n)], g=[sm(r) for _ in range(n)],
             q=[0 if aff else r.choice([0, 0, 1, -1]) for _ in range(n)], p=[r.choice([0, 0, 0, 1, -1]) for _ in range(n)], s=0 if (kind or aff or V is not None) else r.choice([0, 0, 1]))
    f['V'] = V if V is not None else [[Fr(r.choice([1, 1, 2] if i == j else [0, 0, 1])) for j in range(n)] for i in range(n)]
    z.f = f
    return ('sys', [kind] + flat(f['A']) + f['b'] + f['g'] + f['q'] + f['p'] + frac(flat(f['V']))[:-1] + [f['s'], frac(flat(f['V']))[-1]])


def measop(r, z, aff=False, W=None, lti=None, C=None):
    n, m = z.n, z.m
    kind = (1 if r.random() < .3 else 0) if lti is None else lti
    h = dict(kind=kind, C=C or [[r.choice([0, 1, 1, -1, 2]) for _ in range(n)] for _ in range(m)], e=[0 if kind else sm(r) for _ in range(m)],
             r=[0 if (kind or aff) else r.choice([0, 1, -1]) for _ in range(m)], w=0)
    if W is None:
        a, b = r.choice([(1, 0), (2, 0), (1, 1), (1, -1)])
        W = [[Fr(a)]] if m == 1 else [[Fr(1), Fr(b)], [Fr(0), Fr(r.choice([1, -1, 2]))]]
    h['W'] = W
    z.h = h
    return ('meas', [kind] + flat(h['C']) + h['e'] + h['r'] + frac(flat(W))[:-1] + [h['w'], frac(flat(W))[-1]])


def target(r, m, T):
    """nice S with S - T positive definite"""
    c = []
    for k in range(-2, 7):
        for b in ([[[1]]] if m == 1 else [[[1, 0], [0, 1]], [[2, 1], [1, 1]], [[1, 1], [1, 2]], [[1, -1], [-1, 2]], [[2, 0], [0, 1]], [[3, 1], [1, 1]]]):
            for t in ([1, 3] if m == 1 else [1]):
                S = [[Fr(v) * Fr(2) ** k * t for v in row] for row in b]
                if pd(ma(S, T, -1)): c.append((k, S))
    if not c: raise Reject
    k0 = min(k for k, _ in c)
    return r.choice([S for k, S in c if k <= k0 + 1])


def psd0(r, n):
    L = [[Fr(r.choice([1, 1, 2]), r.choice([1, 1, 2])) if i == j else Fr(r.choice([0, 1, -1])) if j < i else Fr(0) for j in range(n)] for i in range(n)]
    return L, mm(L, tr(L))


def ekf(r):
    n, m = r.choice([(2, 1), (2, 2), (3, 1), (3, 2)])
    z = Sim(n, m)
    s = [('dim', [n, m]), sysop(r, z), measop(r, z)]
    x = [Fr(r.randint(-2, 2)) for _ in range(n)]
    P = psd0(r, n)[1] if r.random() < .9 else mk(0, eye(n))
    s.append(('new', [0, 4, 8, 0, 0] + [int(v) for v in x] + frac(flat(P))))
    Q, R = mk(2, P), eye(m)
    s.append(('get', []))
    for _ in range(r.randint(3, 9)):
        k = r.random()
        keep = len(s), z.f, z.h, x, P, Q, R
        try:
            if k < .1: s.append(sysop(r, z))
            elif k < .2: s.append(measop(r, z))
            elif k < .3:
                Q = psd0(r, n)[1]
                s.append(('setQ', frac(flat(Q))))
            elif k < .36:
                x = [Fr(r.randint(-4, 4), 2) for _ in range(n)]
                s.append(('setx', frac(x)))
            elif k < .4: s.append(('get', []))
            elif k < .7:
                a, b = r.choice([(1, 1), (1, 2), (1, 4), (1, 3), (1, 6), (2, 3)])
                kk = r.choice([0, 1, 2, 3, 5, 6, 7, 11, 12])
                dt, t, u = Fr(a, b), Fr(a, b) * kk, r.randint(-2, 2)
                F, G = z.dynx(x, dt, t), z.dynv(x)
                P = ma(mm(mm(F, P), tr(F)), mm(mm(G, mk(dt, Q)), tr(G)))
                x = z.dyn(x, u, dt, t)
                fits(*x, *flat(P))
                s.append(('pred', [u, a, b, kk, 0]))
            else:
                t2 = r.choice([0, 1, 2, 3])
                H, W = z.hxx(x), z.hw(x)
                if det(W) == 0: raise Reject
                T = mm(mm(H, P), tr(H))
                if r.random() < .9 or not det(R):
                    S = target(r, m, T)
                    iW = inv(W)
                    R = mm(mm(iW, ma(S, T, -1)), tr(iW))
                    s.append(('setR', frac(flat(R))))
                S = ma(T, mm(mm(W, R), tr(W)))
                y = [Fr(r.randint(-3, 3)) for _ in range(m)]
                K = mm(mm(P, tr(H)), inv(S))
                x = [a + b for a, b in zip(x, mv(K, [a - b for a, b in zip(y, z.hx(x, Fr(t2, 2)))]))]
                P = ma(P, mm(mm(K, H), P), -1)
                fits(*x, *flat(P), *flat(R))
                s.append(('upd', [t2] + frac(y)))
        except Reject:
            s = s[:keep[0]]
            z.f, z.h, x, P, Q, R = keep[1:]
    s.append(('get', []))
    return s


def ukf(r):
    n, m = r.choice([(2, 1), (2, 2), (3, 1), (3, 2)])
    z = Sim(n, m)
    # alpha, beta, kappa, gamma (quarters)
    al, ka, ga = r.choice([(4, 2 * 4, 8), (2, 2 * 4, 4), (4, -4, 4), (4, 0, 0), (2, 0, 0), (4, 4 * 7, 12), (1, 8, 2)] if n == 2 else
                          [(4, 4, 8), (2, 4, 4), (4, -8, 4), (4, 0, 0), (8, -8, 8), (4, 4 * 6, 12)])
    be = r.choice([8, 8, 0, 4, 12])
    A4, B4, K4, G4 = Fr(al, 4), Fr(be, 4), Fr(ka, 4), Fr(ga, 4)
    c = A4 * A4 * (n + K4)
    wm = [(c - n) / c] + [1 / (2 * c)] * (2 * n)
    wc = [wm[0] + 1 - A4 * A4 + B4] + wm[1:]
    L, P = psd0(r, n)
    x = [Fr(r.randint(-2, 2)) for _ in range(n)]
    s = [('dim', [n, m]), sysop(r, z, aff=True, V=eye(n)), measop(r, z, aff=True, W=eye(m)),
         ('new', [1, al, be, ka, ga] + [int(v) for v in x] + frac(flat(P))), ('get', [])]
    for step in range(r.randint(1, 4)):
        keep = len(s), z.f, z.h, x, P, L
        try:
            full = L is not None and ga != 0 and r.random() < .9
            a, b = r.choice([(1, 1), (1, 2), (1, 3)])
            kk = r.choice([0, 1, 2, 3])
            dt, t, u = Fr(a, b), Fr(a, b) * kk, r.randint(-2, 2)
            V = psd0(r, n)[1]
            s.append(sysop(r, z, aff=not full, V=V))
            if full:
                X = [x] + [[x[i] + G4 * L[i][k] for i in range(n)] for k in range(n)] + [[x[i] - G4 * L[i][k] for i in range(n)] for k in range(n)]
                X = [z.dyn(v, u, dt, t) for v in X]
                x = [sum(w * v[i] for w, v in zip(wm, X)) for i in range(n)]
                sp = [[sum(w * (v[i] - x[i]) * (v[j] - x[j]) for w, v in zip(wc, X)) for j in range(n)] for i in range(n)]
            else:
                F = z.dynx(x, dt, t)
                sp = mm(mm(F, P), tr(F))
                x = z.dyn(x, u, dt, t)
                X = None
            Lc = L
            L = None
            if r.random() < .5 and full:       # choose the noise so that the new covariance is a square
                L, P2 = psd0(r, n)
                V = ma(P2, sp, -1)
                s[-1] = ('sys', s[-1][1][:1 + n * n + 4 * n] + frac(flat(V))[:-1] + [0, frac(flat(V))[-1]])
                z.f['V'] = V
            P = ma(sp, z.dynv(x))
            if not pd(P): raise Reject
            fits(*x, *flat(P))
            for _ in range(1):
                s.append(('pred', [u, a, b, kk, 1] + frac(flat(Lc)) if full else [u, a, b, kk, 0]))
            if r.random() < .2: s.append(('get', []))
            if r.random() < .85 or L is None:
                t2 = r.choice([0, 1, 2, 3])
                s.append(measop(r, z, aff=not full, W=eye(m), lti=None))
                if X:
                    Y = [z.hx(v, Fr(t2, 2)) for v in X]
                    y = [sum(w * v[i] for w, v in zip(wm, Y)) for i in range(m)]
                    T = [[sum(w * (v[i] - y[i]) * (v[j] - y[j]) for w, v in zip(wc, Y)) for j in range(m)] for i in range(m)]
                    Pxy = [[sum(w * (v[i] - x[i]) * (q[j] - y[j]) for w, v, q in zip(wc, X, Y)) for j in range(m)] for i in range(n)]
                else:
                    y, H = z.hx(x, Fr(t2, 2)), z.hxx(x)
                    T, Pxy = mm(mm(H, sp), tr(H)), mm(sp, tr(H))
                S = target(r, m, T)
                W = ma(S, T, -1)
                s[-1] = ('meas', s[-1][1][:1 + m * n + 2 * m] + frac(flat(W))[:-1] + [0, frac(flat(W))[-1]])
                z.h['W'] = W
                K = mm(Pxy, inv(S))
                yy = [Fr(r.randint(-3, 3)) for _ in range(m)]
                x = [a_ + b_ for a_, b_ in zip(x, mv(K, [a_ - b_ for a_, b_ in zip(yy, y)]))]
                P = ma(P, mm(mm(K, S), tr(K)), -1)
                if not pd(P): raise Reject
                fits(*x, *flat(P), *flat(W))
                L = None
                s.append(('upd', [t2] + frac(yy)))
            if r.random() < .15:
                x = [Fr(r.randint(-4, 4), 2) for _ in range(n)]
                s.append(('setx', frac(x)))
        except Reject:
            s = s[:keep[0]]
            z.f, z.h, x, P, L = keep[1:]
    s.append(('get', []))
    return s


def steady(r):
    """A steady-state filter with a certified solution: choose P, A, C and S, derive R and Q."""
    while True:
        n, m = r.choice([(2, 1), (2, 2), (3, 1), (3, 2)])
        P = psd0(r, n)[1]
        A = [[Fr(r.choice([0, 0, 1, -1, 1, 2, 3]), 2) for _ in range(n)] for _ in range(n)]
        C = [[Fr(r.choice([0, 1, 1, -1])) for _ in range(n)] for _ in range(m)]
        PC = mm(P, tr(C))
        T = mm(C, PC)
        try: S = target(r, m, T)
        except Reject: continue
        R = ma(S, T, -1)
        K = mm(PC, inv(S))
        Pp = ma(P, mm(K, tr(PC)), -1)
        Q = ma(P, mm(mm(A, Pp), tr(A)), -1)
        if not pd(Q): continue
        b = [Fr(r.randint(-1, 2)) for _ in range(n)]
        e = [Fr(r.randint(-1, 1)) for _ in range(m)]
        x0 = [Fr(r.randint(-2, 2)) for _ in range(n)]
        u = lambda vs: [v * 64 for v in vs]
        allv = u(flat(A) + b + flat(C) + e + flat(Q) + flat(R) + flat(P) + flat(K) + x0)
        # products used by the certificate must be exact in units of 1/64 as well
        PK = mm(K, tr(PC))
        aux = u(flat(PC) + flat(PK) + flat(Pp) + flat(mm(A, Pp)) + flat(S))
        if any(v.denominator != 1 or abs(v) > 20000 for v in allv + aux): continue
        # P_k converges at the rate of the closed loop, squared
        N = ma(A, mm(A, mm(K, C)), -1)
        M8 = N
        for _ in range(4): M8 = [[Fr(float(v)).limit_denominator(10 ** 9) for v in q] for q in mm(M8, M8)]
        if max(abs(v) for v in flat(M8)) > Fr(1, 20): continue
        s = [('ssn', [n, m] + [int(v) for v in allv])]
        x = x0
        pred = conv = False
        it = 1000
        for _ in range(r.randint(3, 7)):
            z = r.random()
            if z < .4 or not pred:
                uu, kk = r.randint(-2, 2), r.randint(0, 3)
                x1 = [a + b_ * uu for a, b_ in zip(mv(A, x), b)]
                if any((v * 64).denominator != 1 or abs(v) > 400 for v in x1): 
                    x = [Fr(r.randint(-2, 2)) for _ in range(n)]
                    s.append(('sss', [int(v) for v in x]))
                    continue
                x, pred = x1, True
                s.append(('ssp', [uu, kk]))
            elif z < .8:
                t = r.randint(0, 3)
                y = [r.randint(-3, 3) for _ in range(m)]
                d = [y[k] - sum(c * v for c, v in zip(C[k], x)) - e[k] * t for k in range(m)]
                x1 = [a + b_ for a, b_ in zip(x, mv(K, d))]
                if any((v * 64).denominator != 1 or abs(v) > 400 for v in x1):
                    x = [Fr(r.randint(-2, 2)) for _ in range(n)]
                    s.append(('sss', [int(v) for v in x]))
                    continue
                s.append(('ssu', [t] + y))
                if it > 1 or conv: x, conv = x1, True
            elif z < .87:
                if not conv:
                    it = r.choice([1, 1000])
                    s.append(('ssi', [it]))
            else: s.append(('ssg', []))
        s.append(('ssg', []))
        return s


def dist(r):
    p = lambda: [r.randint(-2, 2) for _ in range(7)]
    k = lambda: [r.choice([0, 1, 2, 2]), r.randint(-3, 3), r.randint(-2, 2), r.randint(-2, 2)]
    s = [('dsn', p() + k())]
    two = False
    for _ in range(r.randint(3, 9)):
        z = r.random()
        if z < .2: s.append(('dsc', [])); two = True
        elif z < .35: s.append(('dss', [r.choice([1, 2]) if two else 1] + k()))
        elif z < .45: s.append(('dsm', p()))
        else:
            w = r.choice([1, 2]) if two else 1
            a = [w] + [r.randint(-3, 3) for _ in range(3)] + [r.randint(0, 4)]
            s.append(('dsf', a) if r.random() < .6 else ('dsd', a + [r.randint(-3, 3)]))
    return s


def check(c):
    b = c.build('filter.cpp')
    big = c.thorough
    c.model_check('FilterMC', cfg('FALSE', 4 if big else 3), 'filters')
    g = c.generate('FilterMC', cfg('TRUE', 3 if big else 2), 'filters', workers=1, limit=8000 if big else 600)
    c.conform(b, 'FilterTrace', g, 'transition tour')
    k = 10 if big else 1
    c.conform(b, 'FilterTrace', [ekf(c.rng) for _ in range(2500 * k)], 'extended Kalman filter')
    c.conform(b, 'FilterTrace', [ukf(c.rng) for _ in range(1200 * k)], 'unscented Kalman filter')
    c.conform(b, 'FilterTrace', [steady(c.rng) for _ in range(300 * k)], 'steady-state Kalman filter')
    c.conform(b, 'FilterTrace', [dist(c.rng) for _ in range(300 * k)], 'disturbed systems')
