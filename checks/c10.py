"""C10: infinite- and finite-horizon LQR design (spec/Lqr.tla)."""
from fractions import Fraction as F
from c09 import mm, tr, add, inv2
ASSUMPTIONS = ['dyadic problems with 2 states and 2 or 3 controls and certified solutions; results compared within 2e-3 absolute plus 0.1 % (the recursion is regularised by 1e-5)',
               'FHDTLQR gains are judged as u = +K dx, which is what the code returns (its header says u = -K dx)']
LAPACK = dict(defs=['-DCT_USE_LAPACK'], libs=['-llapack', '-lblas'])


def cfg(emit, wide):
    return ('INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n%sCONSTANTS Emit = %s Wide = %s\n'
            % ('' if emit == 'TRUE' else 'INVARIANT Certified Value Best\nPROPERTY Decrease\n', emit, wide))


def neg(a): return [[-x for x in w] for w in a]
def psd(q): return q[0][0] >= 0 and q[1][1] >= 0 and q[0][0] * q[1][1] - q[0][1] * q[1][0] >= 0
def pd(q): return q[0][0] > 0 and q[0][0] * q[1][1] - q[0][1] * q[1][0] > 0
def ints(*ms):
    out = []
    for m in ms:
        for w in m:
            for e in w:
                if (F(e) * 16).denominator != 1 or abs(e) > 60: return None
                out.append(int(F(e) * 64))
    return out


def pieces(r):
    m = lambda den=1, hi=1: [[F(r.randint(-hi, hi), den) for _ in range(2)] for _ in range(2)]
    while True:
        P = (lambda a, b, c: [[F(a), F(b)], [F(b), F(c)]])(r.randint(1, 5), r.randint(-2, 2), r.randint(1, 5))
        if pd(P): break
    t = r.choice([0, 0, -1, 1])
    c = F(r.choice([1, 2, 4, 8]))
    d = c * r.choice([1, 1, 2])
    R = [[c, F(0)], [F(0), d]] if t == 0 else [[c, c * t], [c * t, c * 2]]
    return m, P, R, t == 0


def dare(r):
    while True:
        m, P, R, _ = pieces(r)
        f, B = m(2, 1), m()
        K = neg(mm(inv2(R), mm(mm(tr(B), P), f)))
        A = add(f, mm(B, K), -1)
        Q = add(P, mm(mm(tr(A), P), f), -1)
        t, d = f[0][0] + f[1][1], f[0][0] * f[1][1] - f[0][1] * f[1][0]
        if not (abs(d) <= F(3, 4) and abs(t) < F(9, 10) * (1 + d)) or not pd(Q): continue
        w = r.random() < .4
        W = P if r.random() < .3 else [[F(r.randint(1, 6)), F(0)], [F(0), F(r.randint(1, 6))]]
        q = ints(Q, R, A, B, P, K, W)
        if q: return ('dare', [int(w), 0 if r.random() < .03 else 1000] + q)


def care(r):
    while True:
        m, P, R, diag = pieces(r)
        f, B = m(1, 3), m()
        K = mm(mm(inv2(R), tr(B)), P)
        A = add(f, mm(B, K))
        Q = add(mm(mm(P, B), K), add(mm(tr(A), P), mm(P, A)), -1)
        if f[0][0] + f[1][1] >= 0 or f[0][0] * f[1][1] - f[0][1] * f[1][0] <= 0 or not psd(Q): continue
        q = ints(Q, R, A, B, P, K)
        if q: return ('care', [r.randint(0, 1), int(diag and r.random() < .6), r.randint(0, 1)] + q)


VS = [((1, 1, 1), 1, 1), ((1, -1, 1), 1, 1), ((1, -1, -1), 2, 2), ((2, 1, 1), 2, 1), ((2, -1, -1), 2, 1), ((1, 2, -1), 2, 1), ((1, 2, 1), 2, 1),
      ((1, 1, 0), 2, 1), ((0, 1, -1), 2, 1), ((1, 0, 1), 2, 3), ((2, 1, 0), 1, 3), ((3, 1, 2), 2, 1), ((3, -1, -2), 2, 1), ((1, 3, 2), 2, 1),
      ((1, 0, 0), 1, 0), ((1, 0, 0), 2, 2), ((0, 0, 1), 1, 3)]


def hess(r):
    """symmetric 3x3 matrix a I + b v v' (repeated eigenvalue) or diag, with its dyadic inverse"""
    if r.random() < .25:
        d = [F(r.choice([1, 2, 4])) for _ in range(3)]
        return [[d[i] if i == j else F(0) for j in range(3)] for i in range(3)], [[1 / d[i] if i == j else F(0) for j in range(3)] for i in range(3)]
    v, a, b = r.choice(VS)
    v = list(v); r.shuffle(v)
    n = sum(x * x for x in v)
    H = [[F((a if i == j else 0) + b * v[i] * v[j]) for j in range(3)] for i in range(3)]
    Hv = [[F(1 if i == j else 0, a) - F(b * v[i] * v[j], a * (a + b * n)) for j in range(3)] for i in range(3)]
    return H, Hv


def inv3(h):
    a, b, c, d, e, f, g, i, j = [float(x) for w in h for x in w]
    A, B, C = e * j - f * i, c * i - b * j, b * f - c * e
    det = a * A + d * B + g * C
    return [[A / det, B / det, C / det], [(f * g - d * j) / det, (a * j - c * g) / det, (c * d - a * f) / det], [(d * i - e * g) / det, (b * g - a * i) / det, (a * e - b * d) / det]]


def well(stages, QT):
    """the regularisation of the recursion (1e-5) must not be amplified beyond the tolerance"""
    fl = lambda m: [[float(x) for x in w] for w in m]
    P = fl(QT)
    for A, B, Q, R, K in reversed(stages):
        A, B, Q, R = fl(A), fl(B), fl(Q), fl(R)
        H = add(R, mm(mm(tr(B), P), B))
        for i in range(3): H[i][i] += 1e-5
        G = mm(mm(tr(B), P), A)
        k = neg(mm(inv3(H), G))
        if any(abs(x - float(y)) > 5e-4 for w, v in zip(k, K) for x, y in zip(w, v)): return False
        P = add(add(Q, mm(mm(tr(A), P), A)), mm(tr(k), G))
    return True


def step(r, P, nonneg=False):
    lo = 0 if nonneg else -1
    A = [[F(r.randint(lo, 1)) for _ in range(2)] for _ in range(2)]
    B = [[F(r.randint(lo, 1)) for _ in range(3)] for _ in range(2)]
    H, Hv = hess(r)
    G = mm(mm(tr(B), P), A)
    K = neg(mm(Hv, G))
    R = add(H, mm(mm(tr(B), P), B), -1)
    return A, B, R, K, G


def dre(r):
    while True:
        P = (lambda a, b, c: [[F(a), F(b)], [F(b), F(c)]])(r.randint(-1, 4), r.randint(-2, 2), r.randint(-1, 4))
        A, B, R, K, G = step(r, P)
        Q = (lambda a, b, c: [[F(a), F(b)], [F(b), F(c)]])(r.randint(0, 4), r.randint(-2, 2), r.randint(0, 4))
        q = ints(Q, R, A, B, P, K)
        if q: return ('dre', [r.randint(0, 1)] + q)


def fhd(r):
    while True:
        N = r.randint(1, 4)
        checks = int(r.random() < .4)
        dt = r.choice([1, 2, 4])
        sym = lambda: (lambda a, b, c: [[F(a), F(b)], [F(b), F(c)]])(r.randint(0, 3), r.randint(-1, 1), r.randint(0, 3))
        P = QT = sym()
        if checks and QT[0][0] * QT[1][1] == QT[0][1] ** 2 and QT[0][1] != 0: continue
        st, raw = [], []
        for _ in range(N):
            S = sym()
            A, B, R, K, G = step(r, P)
            Q = add(add(S, mm(mm(tr(A), P), A), -1), mm(tr(K), G), -1)
            if checks and r.random() < .8: Q = add(Q, [[F(r.randint(0, 3)), F(0)], [F(0), F(r.randint(0, 3))]]); S = add(add(Q, mm(mm(tr(A), P), A)), mm(tr(K), G))
            st.insert(0, ints(A, B, Q, R, K))
            raw.insert(0, (A, B, Q, R, K))
            P = S
        q = ints(QT)
        if any(s is None for s in st) or q is None or not well(raw, QT): continue
        return ('fhd', [r.randint(0, 1), checks, N, 0 if r.random() < .95 else r.randint(1, 3), dt] + sum(st, []) + q)


def fhd_pos(r):
    """all weights nonnegative, so that the numerical checks pass"""
    for _ in range(100000):
        N = r.randint(1, 2)
        P = QT = (lambda a, c: [[F(a), F(0)], [F(0), F(c)]])(r.randint(0, 1), r.randint(0, 1))
        st = []
        for _ in range(N):
            A, B, R, K, G = step(r, P, True)
            if any(e < 0 for w in R for e in w) or any(R[i][i] <= 0 for i in range(3)): break
            Q = [[F(r.randint(0, 2)), F(0)], [F(0), F(r.randint(0, 2))]]
            S = add(add(Q, mm(mm(tr(A), P), A)), mm(tr(K), G))
            q = ints(A, B, Q, R, K)
            if q is None or any(e.denominator != 1 for w in S for e in w): break
            st.insert(0, q)
            P = S
        if len(st) == N: return ('fhd', [r.randint(0, 1), 1, N, 0, r.choice([1, 2, 4])] + sum(st, []) + ints(QT))
    raise RuntimeError('no problem found')


def nodare(r):
    q = r.randint(1, 4)
    Q = [[F(q), F(0)], [F(0), F(r.randint(1, 4))]]
    A = [[F(1), F(0)], [F(r.randint(-1, 1)), F(r.randint(-2, 2), 2)]]
    B = [[F(0), F(0)], [F(r.randint(0, 1)), F(1)]]
    R = [[F(1), F(0)], [F(0), F(2)]]
    return ('nodare', ints(Q, R, A, B))


def mixed(r):
    return [r.choice([dare, care, dre, fhd, fhd_pos])(r) for _ in range(r.randint(1, 5))] + ([nodare(r)] if r.random() < .05 else [])


def check(c):
    b = c.build('lqr.cpp', defs=LAPACK['defs'], libs=LAPACK['libs'])
    big = c.thorough
    c.model_check('LqrMC', cfg('FALSE', 'TRUE' if big else 'FALSE'), 'certificates are optimal values')
    g = c.generate('LqrMC', cfg('TRUE', 'TRUE'), 'catalogue of infinite-horizon problems', maximal=False, workers=1)
    h = []
    for s in g:
        o, a = s[0]
        h.append([(o, a)] + ([(o, (0,) + a[1:]), (o, (1, 0, 1) + a[3:])] if o == 'care' else [(o, (1,) + a[1:])]))
    c.conform(b, 'LqrTrace', h, 'catalogue of infinite-horizon problems')
    c.conform(b, 'LqrTrace', [mixed(c.rng) for _ in range(12000 if big else 2000)], 'random designs')
