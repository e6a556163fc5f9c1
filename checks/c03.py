"""C03: integration over a grid with event handlers (spec/Integ.tla)."""
ASSUMPTIONS = ['numerical values are compared on a system that is integrated exactly by every method of order >= 3; '
               'the arithmetic inside boost::odeint is trusted for its adaptive methods beyond that']


def cfg(types, depth, gen):
    return ('INIT Init\nNEXT Next\n%sCHECK_DEADLOCK FALSE\nINVARIANT ExactForRK4 LogIsGrid LogEndsAtResult Counts\n'
            'CONSTANTS Types = %s Depth = %d Gen = %s\n' % ('VIEW View\n', types, depth, gen))


def rand(rng):
    s, ty = [], 7
    R = lambda k: rng.randint(-k, k)
    for _ in range(14):
        o = rng.choice(['type', 'type', 'cfg', 'run', 'run', 'run', 'run', 'run', 'adapt', 'times', 'sym', 'tol'])
        if o == 'type': ty = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 7, 7, 8, 8, 8]); s.append((o, [ty]))
        elif o == 'cfg': s.append((o, [rng.choice([0, 1, 2, 3, 5, 1000, 1000]), rng.choice([0, 0, 0, 1, 2, 3, 5]), rng.randint(0, 1)]))
        elif o == 'run':
            if ty == 6: continue          # Bulirsch-Stoer subdivides internally: covered by adapt/times
            k, D, n, T0 = rng.randint(0, 3), rng.randint(1, 4), rng.randint(0, 6), R(6)
            if ty in (7, 8): k %= 2
            s.append((o, [k, R(5), R(5), R(3), R(3), R(3), T0, D, n if k < 2 else T0 + n * D + rng.randrange(D)]))
        elif o == 'adapt':
            if ty in (0, 2): continue
            T0 = R(5); s.append((o, [0, R(5), R(5), R(3), R(3), R(3), T0, T0 + rng.randint(1, 6)]))
        elif o == 'times':
            if ty in (0, 2): continue
            T, ts = R(5), []
            for _ in range(rng.randint(1, 4)): ts.append(T); T += rng.randint(1, 3)
            s.append((o, [0, R(5), R(5), R(3), R(3), R(3)] + ts))
        elif o == 'sym': s.append((o, [R(5), R(5), R(3), R(2), R(3), rng.randint(1, 2), rng.randint(0, 5), R(4)]))
        elif o == 'tol': s.append((o, [rng.choice([3, 4])]))
    return s


def check(c):
    b = c.build('integ.cpp')
    big = c.thorough
    c.model_check('IntegMC', cfg('{0, 1, 7, 8}', 4, 'FALSE'), 'orders of runs, types and handler configurations')
    g = c.generate('IntegMC', cfg('{0, 1, 7, 8}', 4 if big else 3, 'TRUE'), 'transition tour', workers=1, limit=60000 if big else 9000)
    c.conform(b, 'IntegTrace', g, 'transition tour')
    c.conform(b, 'IntegTrace', [rand(c.rng) for _ in range(4000 if big else 700)], 'random behaviours')
