"""C06: model predictive control (spec/Mpc.tla)."""
ASSUMPTIONS = ['MPC is instantiated with a recording stand-in solver (it is a template over the solver) and a virtual gettimeofday',
               'after a failed solve the time stamp of the returned warm-start policy is not judged',
               'an iteration is finished only after it was prepared']


def cfg(gen, depth, modes='{0, 1, 2, 3}'):
    return ('INIT Init\nNEXT Next\nVIEW View\nCHECK_DEADLOCK FALSE\nINVARIANT Window Covers FirstPredictsNothing Horizon NonEmpty\n'
            'CONSTANTS Gen = %s Depth = %d Modes = %s\n' % (gen, depth, modes))


def rset(r, cold=None):
    return [r.randint(0, 3), r.randint(1, 12), r.choice([0, 0, 1, 2, 5]), r.choice([0, 0, 1, 3]), r.choice([0, 1, 2, 2]), 0, 0,
            r.randint(0, 1), r.randint(0, 1), cold if cold is not None else int(r.random() < .15), r.randint(0, 1), r.choice([1, 1, 2, 3])]


def timing(r, q, ext):
    q[6] = ext
    q[5] = 0 if ext else r.randint(0, 1)
    if r.random() < .05: q[5] = q[6] = 1
    return q


def even(q):
    return [q[0], q[1], q[2], q[3]] + q[4:]


def rand_mpc(r):
    s = []
    for _ in range(r.randint(0, 3)):
        s.append((r.choice(['warm']), [r.randint(1, 9), r.randint(1, 9), r.randint(0, 22), r.randint(0, 24)]))
        s.append(('cut', [r.randint(1, 9), r.randint(1, 9), r.randint(0, 22)]))
    ext = r.randint(0, 1)
    q = timing(r, rset(r), ext)
    bad = q[5] and q[6]
    T = r.randint(2, 30)
    s.append(('new', q + [T, r.randint(1, 9), r.randint(1, 16)]))
    if bad:
        q[5], q[6] = 0, ext; s.append(('new', q + [T, r.randint(1, 9), r.randint(1, 16)]))
    cold = q[9]
    if r.random() < .3: s.append(('clk', [r.randint(0, 9)]))
    now = r.choice([0, 0, r.randint(0, 40)])
    seed = 10
    for _ in range(r.randint(2, 12)):
        while r.random() < .25:
            o = r.choice(['reset', 'guess', 'upd', 'strat', 'clk', 'since', 'reached'])
            if o == 'reset': s.append((o, [r.randint(1, 30)]))
            elif o == 'guess': s.append((o, [r.randint(1, 9), r.randint(1, 16)]))
            elif o == 'upd': s.append((o, timing(r, rset(r, cold), ext)))
            elif o == 'strat':
                if r.random() < .3: s.append((o, [r.randint(0, 20), r.randint(0, 1)]))
            elif o == 'clk': s.append((o, [r.randint(0, 6)]))
            elif o == 'reached': s.append((o, []))
            else: s.append((o, [now]))
        now += r.choice([0, 0, 1, 2, 7])
        s.append(('prep', [now, r.randint(0, 3)]))
        if r.random() < .1: s.append(('prep', [now, r.randint(0, 3)]))
        if r.random() < .3: s.append(('clk', [r.randint(0, 9)]))
        now += r.choice([0, 1, 2, 5, 9])
        # the measured delay is halved by the multiplier: keep it even so that it stays on the grid
        s.append(('fin', [r.randint(-5, 5), now, 2 * r.randint(0, 4), int(r.random() < .85), seed % 90 + 1, r.choice([-1, -1, -1, 3])]))
        seed += 1
        if r.random() < .3: s.append(('since', [now + r.randint(0, 4)]))
    return s


def check(c):
    b = c.build('mpc.cpp')
    big = c.thorough
    c.model_check('MpcMC', cfg('FALSE', 7 if big else 6), 'MPC run protocol')
    for m in (0, 1, 2, 3):
        g = c.generate('MpcMC', cfg('TRUE', 7 if big else 6, '{%d}' % m), 'MPC run protocol, mode %d, transition tour' % m, workers=1, limit=20000 if big else 1500)
        c.conform(b, 'MpcTrace', g, 'MPC run protocol, mode %d, transition tour' % m)
    n = 12000 if big else 1500
    c.conform(b, 'MpcTrace', [rand_mpc(c.rng) for _ in range(n)], 'random MPC runs')
