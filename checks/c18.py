"""C18: robot models (spec/Rbd.tla over spec/Robots.tla)."""
ASSUMPTIONS = ['joint angles whose sine and cosine are rational (multiples of a quarter turn plus 0, atan(3/4), atan(4/3), at most two such joints at a time)',
               'dynamics with integer link inertias put into the models, so that results are exact; the models\' own inertias are compared one by one',
               'the wrappers of ct_rbd around the generated code are the subject of C19']
BOTS = [('InvertedPendulum', 1, 0, 5, 2), ('DoubleInvertedPendulum', 2, 0, 10, 3), ('HyA', 6, 0, 50, 14), ('QuadrotorWithLoad', 2, 1, 14, 1), ('HyQ', 12, 1, 76, 16)]


def ang(r, n, k):
    q = [r.randint(0, 3) for _ in range(n)]
    for i in r.sample(range(n), min(n, k)): q[i] = r.randint(0, 11)
    return q


def vec(r, n, m=2): return [r.randint(-m, m) for _ in range(n)]


def rand(r, b, heavy):
    name, n, f, nx, nj = BOTS[b]
    k = 2 if n <= 2 else 1
    s = [('bot', [b]), ('ins', [r.randint(1, 40)])]
    q = [0] * n
    for _ in range(r.randint(6, 14)):
        z = r.random()
        if z < .2: s.append(('tf', [r.randint(0, 2), r.randint(1, nx)] + ang(r, n, 2)))
        elif z < .28: s.append(('jac', [r.randint(1, nj)] + ang(r, n, 2)))
        elif z < .33: s.append(('com', ang(r, n, k)))
        elif z < .38: s.append(('ins', [r.randint(1, 40)]))
        elif z < .45: q = ang(r, n, k); s.append(('set', [r.randint(0, 1)] + q))
        elif z < .5 and (heavy or n < 6): s.append(('M', ang(r, n, k)))
        elif z < .55: s.append(('L', ang(r, n, k)))
        else:
            w = r.randint(0, 1)
            if w: q = ang(r, n, k)
            a = [w, r.choice([0, r.randint(1, 40)])] + q + vec(r, n) + vec(r, n)
            if f:
                a += vec(r, 6) + vec(r, 6) + [0, 0, 0] + vec(r, 3, 10)
                s.append((r.choice(['idb', 'idb', 'Gb', 'Cb', 'idf', 'fdb', 'fdb']), a))
            else: s.append((r.choice(['id', 'id', 'G', 'C', 'fd', 'fd']), a))
    return s


def sweep(r, b):
    """every transform and Jacobian, every joint at every angle"""
    name, n, f, nx, nj = BOTS[b]
    out = []
    for kind in range(3):
        for x in range(1, nx + 1):
            out.append([('bot', [b])] + [('tf', [kind, x] + ang(r, n, 2)) for _ in range(5)])
    for j in range(1, nj + 1):
        out.append([('bot', [b])] + [('jac', [j] + ang(r, n, 2)) for _ in range(8)])
    out.append([('bot', [b]), ('par', [])])
    return out


def quad(r):
    s = [('bot', [0])]
    for _ in range(6):
        a = [r.randint(0, 11), r.choice([0, 2, 4, 5, 6, 7, 8, 9, 10, 11]), r.randint(0, 11)] + vec(r, 12) + [r.randint(-20, 60)] + vec(r, 3, 3)
        s.append((r.choice(['qo', 'qA', 'qB']), a))
        if r.random() < .1: s.append(('cl', []))
    return s


def spatial(r):
    """the spatial algebra below the models: cross products, inertias and their transformation, articulated inertias"""
    def a1(k=1):
        q = [r.randint(0, 3) for _ in range(3)]
        for i in r.sample(range(3), k): q[i] = r.randint(0, 11)
        return q
    def iner(): return [r.choice([1, 2, 4])] + vec(r, 3) + [r.randint(3, 8), r.randint(-2, 2), r.randint(-2, 2), r.randint(3, 8), r.randint(-2, 2), r.randint(3, 8)]
    s = [('bot', [0]), ('imc', iner())]
    # the mass stays a power of two
    m = s[-1][1][0]
    for _ in range(10):
        o = r.choice(['vxIv', 'vxIz', 'mcx', 'fcx', 'ti', 'ti', 'ctr', 'ctp', 'Iar', 'Iap', 'rot', 'tra', 'skw', 'bit', 'imf', 'imc', 'imm', 'imo', 'imo', 'imr', 'ima', 'ims'])
        if o == 'vxIv': a = vec(r, 6, 3) + iner()
        elif o == 'vxIz': a = vec(r, 1, 4) + iner()
        elif o in ('mcx', 'fcx'): a = vec(r, 6, 9)
        elif o == 'ti': a = a1() + vec(r, 3, 3) + iner()
        elif o in ('ctr', 'ctp'): a = a1() + vec(r, 3, 3) + [r.randint(1, 300)]
        elif o in ('Iar', 'Iap'): a = [r.randint(1, 300), r.choice([1, 2, 3, 4, 6, 8])]
        elif o == 'rot': a = a1(2)
        elif o == 'tra': a = a1(2) + vec(r, 6, 9)
        elif o == 'skw': a = vec(r, 3, 9)
        elif o == 'bit': a = vec(r, 6, 9)
        elif o in ('imf', 'imc', 'ims'): a = iner(); m = a[0]
        elif o == 'imm': a = [r.choice([1, 2, 4])]; m = a[0]
        elif o == 'imo': a = vec(r, 3, 3)
        elif o == 'imr': a = iner()[4:]
        else: a = iner(); a[0] = m; m = 2 * m
        if m > 4: s.append((o, a)); o = 'imf'; a = iner(); m = a[0]
        s.append((o, a))
    return s


import vlib


def check(c):
    big = c.thorough
    inc = ['-I%s/%s' % (vlib.REPO, d) for d in ('ct_models/include', 'ct_rbd/include', 'ct_rbd/include/ct', 'ct_models/src')]
    jobs = [dict(src='rbd.cpp', name='rbd%d' % b, extra=tuple(inc), defs=('-DVP_BOT=%d' % b, '-DEIGEN_NO_DEBUG'), opt='-O0' if b == 4 else '-O1') for b in range(5)]
    jobs.append(dict(src='quad.cpp', extra=tuple(inc)))
    jobs.append(dict(src='spatial.cpp', extra=tuple(inc)))
    bins = c.build_all(jobs)
    c.model_check('RbdMC', 'CONSTANT Depth = %d\nINIT Init\nNEXT Next\nINVARIANTS Rigid Motion Virtual Object Moved Hover\nCHECK_DEADLOCK FALSE\n' % (120 if big else 20),
                  'laws of mechanics on the specification: rigid transforms, power, symmetric inertia, linear equation of motion, virtual work')
    c.conform(bins[6], 'RbdTrace', [spatial(c.rng) for _ in range(1500 if big else 200)], 'spatial algebra')
    c.conform(bins[5], 'RbdTrace', [quad(c.rng) for _ in range(1500 if big else 200)], 'quadrotor')
    for b in range(5):
        sc = sweep(c.rng, b)
        sc += [rand(c.rng, b, i % 10 == 0) for i in range([150, 150, 200, 200, 120][b] * (8 if big else 1))]
        c.conform(bins[b], 'RbdTrace', sc, BOTS[b][0])
