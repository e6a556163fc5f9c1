"""C09: linear-quadratic optimal control problems and the Riccati solver (spec/Lq.tla)."""
from fractions import Fraction as F
ASSUMPTIONS = ['dyadic problem data with 2 states and 2 controls for which every intermediate value of the recursion is exactly representable on the grid of 1/64',
               'HPIPM is not available in this sandbox: only the Riccati solver is judged']


def cfg(gen, depth, wide):
    inv = '' if gen == 'TRUE' else 'INVARIANT CostToGo FirstOrder Optimal\n'
    return ('INIT Init\nNEXT Next\nVIEW View\nCHECK_DEADLOCK FALSE\n%sCONSTANTS Emit = %s Depth = %d Wide = %s\n' % (inv, gen, depth, wide))


def mm(a, b): return [[sum(a[i][k] * b[k][j] for k in range(len(b))) for j in range(len(b[0]))] for i in range(len(a))]
def tr(a): return [list(r) for r in zip(*a)]
def add(a, b, s=1): return [[x + s * y for x, y in zip(p, q)] for p, q in zip(a, b)]
def inv2(h):
    d = h[0][0] * h[1][1] - h[0][1] * h[1][0]
    return [[h[1][1] / d, -h[0][1] / d], [-h[1][0] / d, h[0][0] / d]]


def rand_problem(r):
    """data of one problem (list of ints in 1/64) such that the recursion stays on the grid; None if it does not"""
    N = r.choice([1, 1, 2, 2, 3, 3, 4])
    fixed, eps = r.randint(0, 1), r.choice([0, 0, 0, F(1, 64), F(1, 2), 1, 2])
    ri = lambda lo=-1, hi=1: r.randint(lo, hi)
    m = lambda: [[F(ri()), F(ri())], [F(ri()), F(ri())]]
    v = lambda: [[F(ri(-2, 2))], [F(ri(-2, 2))]]
    sym = lambda: (lambda a, b, c: [[F(a), F(b)], [F(b), F(c)]])(ri(-1, 3), ri(), ri(-1, 3))
    S, s = sym(), v()
    QN, qN = S, s
    out = []
    for _ in range(N):
        A, B, G, b, q, rv, Sk = m(), m(), m(), v(), v(), v(), sym()
        if eps in (0, F(1, 64)) and not (fixed and eps):
            t = ri()
            c = F(r.choice([1, 2]))
            H = [[c, c * t], [c * t, c * (t * t + 1)]]
            Hi = H
        else:
            h = [F(x) for x in (r.choice([-1, 0, F(1, 2), 1, 2, 3, 4]), r.choice([-1, 0, F(1, 2), 1, 2, 3, 4]))]
            hi = [x + eps if fixed else max(x, F(eps)) for x in h]
            if any(x not in (F(1, 2), 1, 2, 4) for x in hi): return None
            H, Hi = [[h[0], F(0)], [F(0), h[1]]], [[hi[0], F(0)], [F(0), hi[1]]]
        Hv = inv2(Hi)
        BS = mm(tr(B), S)
        P, R = add(G, mm(BS, A), -1), add(H, mm(BS, B), -1)
        L = [[-x for x in w] for w in mm(Hv, G)]
        g = add(rv, add(mm(tr(B), s), mm(BS, b)))
        l = [[-x for x in w] for w in mm(Hv, g)]
        Q = add(add(Sk, mm(mm(tr(A), S), A), -1), mm(tr(L), G), -1)
        s = add(add(q, mm(tr(A), add(s, mm(S, b)))), mm(tr(G), l))
        S = Sk
        out.insert(0, (A, B, b, P, Q, R, q, rv, L, l))
    flat, allv = [], []
    x = [[F(0)], [F(0)]]
    for A, B, b, P, Q, R, q, rv, L, l in out:
        for M in (A, B, b, P, Q, R, q, rv): flat += [e for w in M for e in w]
        u = add(l, mm(L, x))
        allv += [e for M in (L, l, u, x) for w in M for e in w]
        x = add(add(mm(A, x), mm(B, u)), b)
    allv += [e for w in x for e in w]
    flat += [e for M in (QN, qN) for w in M for e in w]
    if any(abs(e) > 40 or 64 % F(e).denominator or (F(e) * 64).denominator != 1 for e in flat + allv): return None
    if any((F(e) * 16).denominator != 1 for e in allv): return None
    return [fixed, int(eps * 64), r.randint(0, 1), N] + [int(e * 64) for e in flat]


def prob(r):
    while True:
        p = rand_problem(r)
        if p: return p


def rand_lq(r):
    return [('lq', [r.choice([0, 0, 1, 2, 3]), r.randint(0, 1)] + prob(r)) for _ in range(r.randint(1, 5))]


def rand_box(r):
    K = r.randint(0, 4)
    s = [('new', [K])]
    for _ in range(r.randint(2, 9)):
        o = r.choice(['ubox', 'xbox', 'tbox', 'gen', 'stages', 'zero', 'dump', 'refuse', 'tilq'])
        n = r.choice([1, 2])
        idx = [r.choice([0, 1]), 0] if n == 1 else [0, 1]
        if r.random() < .12: idx[n - 1] = 2
        rest = [n] + idx + [r.randint(-9, 9) for _ in range(6)]
        if o in ('ubox', 'xbox'): s.append((o, [r.choice([-1, -1] + list(range(0, K + 2)))] + rest))
        elif o == 'tbox': s.append((o, rest))
        elif o == 'gen':
            k = r.choice([1, 2, 3, 9])
            s.append((o, [k] + [r.randint(-9, 9) for _ in range(6 * (1 if k == 9 else k))]))
        elif o == 'stages': K = r.randint(0, 4); s.append((o, [K]))
        elif o == 'zero': s.append((o, [r.choice([0, 0, 1, 2])]))
        elif o == 'tilq': s.append((o, [r.randint(1, 3), r.randint(1, 3)] + [2 * r.randint(-60, 60) for _ in range(32)]))
        else: s.append((o, []))
    return s + [('dump', []), ('refuse', [])]


def check(c):
    b = c.build('lq.cpp')
    big = c.thorough
    c.model_check('LqMC', cfg('FALSE', 1, 'TRUE'), 'optimality of the recursion, wide catalogue')
    c.model_check('LqMC', cfg('FALSE', 3 if big else 2, 'FALSE'), 'optimality of the recursion, several stages')
    g = c.generate('LqMC', cfg('TRUE', 2, 'FALSE'), 'all catalogue problems with up to 2 stages', maximal=False, workers=1, limit=None if big else 6000)
    # several problems per session, so that the solver is reused
    g = [sum(g[i:i + 4], []) for i in range(0, len(g), 4)]
    c.conform(b, 'LqTrace', g, 'catalogue problems')
    n = 15000 if big else 2500
    c.conform(b, 'LqTrace', [rand_lq(c.rng) for _ in range(n)], 'random problems, solver reused')
    c.conform(b, 'LqTrace', [rand_box(c.rng) for _ in range(n)], 'constraint containers and problem construction')
