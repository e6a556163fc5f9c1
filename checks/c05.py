"""C05: discretisation and linearisation (spec/Discr.tla)."""
ASSUMPTIONS = ['plants with small integer parameters, so that the steps of the fixed-step methods are exactly representable',
               'implicit and exponential discretisations and numerical linearisers are judged to three decimals']


def cfg(gen, depth):
    return ('INIT Init\nNEXT Next\nVIEW View\nCHECK_DEADLOCK FALSE\nINVARIANT CloneFrozen SensIsDifference Composes\n'
            'CONSTANTS Gen = %s Depth = %d\n' % (gen, depth))


def fits(P, ty, K, h2):
    k, a, w, c, b = P
    if ty in (1, 4): return a == 0 and h2 == 2 and K <= 2
    if ty == 2: return c == 0 and w == 0 and (a == 0 or K <= 2) and (h2 == 2 or K <= 3)
    if ty == 5: return k == a == c == w == 0
    return (a == 0 or K <= 2) and (h2 == 2 or K <= 3)


def rand_d(r):
    s, P = [], [0, 0, 0, 0, 1]
    D = {}
    V = lambda: r.randint(-2, 2)
    for _ in range(r.randint(15, 40)):
        o = r.choice(['par', 'par', 'new', 'cl', 'sett', 'setp', 'chg'] + ['step', 'sens'] * 4 + ['dlin', 'fe', 'se', 'exp', 'imp', 'lin', 'lin'])
        k = r.choice(sorted(D)) if D else None
        if o == 'par':
            P = [V(), r.choice([0, 0, 1, -1]), r.choice([0, 0, 1]), r.choice([0, 0, 1, -1]), r.choice([1, 2, -1])]
            s.append((o, P))
        elif o == 'new':
            for _ in range(20):
                ty, K, h2 = r.randint(0, 5), r.randint(1, 3), r.choice([1, 2])
                if fits(P, ty, K, h2): break
            else: continue
            s.append((o, [ty, K, h2])); D[1] = [list(P), ty, K, h2]
        elif o == 'cl' and 1 in D: s.append((o, [])); D[2] = [list(D[1][0])] + D[1][1:]
        elif k is None: continue
        elif o == 'sett':
            ty = r.randint(0, 5)
            if fits(D[k][0], ty, D[k][2], D[k][3]): s.append((o, [k, ty])); D[k][1] = ty
        elif o == 'setp':
            K, h2 = r.randint(1, 3), r.choice([1, 2])
            if fits(D[k][0], D[k][1], K, h2): s.append((o, [k, K, h2])); D[k][2:] = [K, h2]
        elif o == 'chg':
            if fits(P, *D[k][1:]): s.append((o, [k])); D[k][0] = list(P)
        elif o in ('step', 'sens', 'dlin'):
            if D[k][1] == 5 and o != 'step': continue
            s.append((o, [k, r.randint(0, 2), V(), V(), V()]))
        elif o in ('fe', 'se'):
            if o == 'se' and (P[2] or P[3]): continue
            s.append((o, [r.choice([1, 2]), r.randint(0, 2), V(), V(), V()]))
        elif o == 'exp': s.append((o, [r.choice([1, 2]), 0, V(), V(), V()]))
        elif o == 'imp':
            kind, h2, n = r.choice([1, 3]), r.choice([1, 2]), r.randint(0, 2)
            a = [kind, h2, n] + [V() for _ in range(5)]
            p, v = (a[3], a[4]) if kind == 1 else (a[6], a[7])
            t4 = 2 * h2 * (n + 1)
            A = [0, 4, 4 * P[0] + 4 * P[1] * v + P[2] * t4, 4 * P[1] * p]
            q = 8 if kind == 1 else 16
            L = [q - h2 * A[0], -h2 * A[1], -h2 * A[2], q - h2 * A[3]]
            if abs(L[0] * L[3] - L[1] * L[2]) < q: continue
            s.append((o, a))
        elif o == 'lin': s.append((o, [r.randint(0, 1), r.randint(0, 12), V(), V(), V()]))
    return s


def rand_lti(r):
    return [(r.choice(['lti', 'dlti']), [r.choice([-2, -1, 0, 0, 1, 2, 3]) for _ in range(13)]) for _ in range(12)]


def check(c):
    b = c.build('discr.cpp')
    big = c.thorough
    c.model_check('DiscrMC', cfg('FALSE', 5 if big else 4), 'discretizers and clones')
    g = c.generate('DiscrMC', cfg('TRUE', 4 if big else 3), 'discretizers and clones, transition tour', workers=1, limit=60000 if big else 6000)
    c.conform(b, 'DiscrTrace', g, 'discretizers and clones, transition tour')
    n = 6000 if big else 800
    c.conform(b, 'DiscrTrace', [rand_d(c.rng) for _ in range(n)], 'random discretisation behaviours')
    c.conform(b, 'DiscrTrace', [rand_lti(c.rng) for _ in range(n // 4)], 'linear time-invariant systems')
