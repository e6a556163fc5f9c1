"""C13: the nonlinear program of direct multiple shooting (spec/Dms.tla)."""
ASSUMPTIONS = ['3 states, 2 controls, up to 4 shots; integer data and half-integer times, compared as residues modulo a prime',
               'the evaluations a solver asks for are driven directly: IPOPT and SNOPT are not available here',
               'fixed-step integrators (Euler, RK4), a simulation step that divides the shots']


def cfg(gen, depth):
    inv = '' if gen == 'TRUE' else 'INVARIANT Derivative Sizes Rows\n'
    return ('INIT Init\nNEXT Next\nVIEW View\nCHECK_DEADLOCK FALSE\n%sCONSTANTS Gen = %s Depth = %d\n' % (inv, gen, depth))


def direction(r, m):
    z = r.random()
    if z < .2:
        d = [0] * m
        d[r.randrange(m)] = 1
        return d
    return [r.choice([0, 1, 1, 2, -1, -2, 3]) for _ in range(m)]


def run(r):
    N = r.randint(1, 4)
    ty, spl = r.randint(0, 1), r.randint(0, 1)
    lin = r.random() < .5
    if ty == 0:
        h, dt = r.choice([(2, 1), (2, 2), (1, 1), (4, 2)] + ([(3, 1), (4, 1), (6, 2)] if lin else []))
    elif lin: h, dt = r.choice([(2, 2), (4, 2), (2, 1), (1, 1), (3, 1)])
    else: h, dt = 2, 2
    sm = lambda: r.choice([0, 1, -1, 2])
    pl = [sm(), 0 if lin else sm(), sm(), sm(), r.choice([1, 2, -1]), 0 if lin else sm()]
    if ty == 1 and lin and dt == 1: pl[0] = pl[2] = 0
    if ty == 1 and not lin: pl[2] = 0
    mask = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 7])
    s = [('new', [N, h, dt, spl, ty, r.randint(0, 1), mask, r.choice([1, 1, 2, 3]), *pl] + [sm() for _ in range(10)] + [r.randint(-2, 2) for _ in range(3)])]
    m = 5 * (N + 1)
    def w(): return [r.randint(-2, 2) for _ in range(m)]
    s.append(('bnd', []))
    fresh = False
    for _ in range(r.randint(2, 6)):
        z = r.random()
        if z < .15:
            s.append(('x0', [r.randint(-3, 3) for _ in range(3)]))
            fresh = False
            if r.random() < .5: s.append(('sol', []))
        elif z < .35:
            k = r.choice([1, 2] if ty == 0 or lin else [1])
            if ty == 0 and not lin and dt == 1: k = r.choice([1, 2])
            s.append(('T', [k * dt]))
            fresh = False
            if r.random() < .5: s.append(('sol', []))
        elif z < .45:
            a, b = N + 1, N + 1
            if r.random() < .25: a += r.choice([-1, 1])
            elif r.random() < .25: b += r.choice([-1, 1])
            s.append(('guess', [a, b] + [r.randint(-3, 3) for _ in range(5 * max(a, b))] if a == b else [a, b] + [r.randint(-3, 3) for _ in range(5 * max(a, b))]))
            if a == b == N + 1: s.append(('init', []))
        elif z < .49:
            s.append((r.choice(['ipopt', 'snopt']), w()))
            s.append(('sol', []))
            fresh = False
        elif z < .54 and fresh: s.append(('set', [0] + w()))
        else:
            s.append(('set', [1] + w()))
            fresh = True
        if not fresh and r.random() < .8:
            s.append(('set', [1] + w()))
            fresh = True
        if fresh:
            for o in r.sample(['cost', 'grad', 'con', 'jac', 'sol', 'bnd'], r.randint(2, 5)):
                s.append((o, direction(r, m) if o in ('grad', 'jac') else []))
                if o in ('grad', 'jac') and r.random() < .4: s.append((o, direction(r, m)))
    return s


def aux(r):
    s = []
    for _ in range(6):
        N = r.choice([1, 2, 3, 4, 6])
        s.append(('og', [N] + [r.randint(-4, 4) for _ in range(8)]))
        N = r.choice([1, 2, 3, 4])
        n = r.choice([1, 2, 3, 4])
        s.append(('spl', [r.randint(0, 1), N, r.choice([1, 2, 4]), r.randrange(N), r.randint(0, n), n] + [r.randint(-4, 4) for _ in range(2 * (N + 1))]))
        N = r.choice([1, 2, 3, 4, 6])
        k = r.randint(0, 3)
        s.append(('grid', [N, r.randint(1, 9), k] + ([] if k == 0 else [r.choice([1, 2, 3, 4])] if k == 1 else [r.randint(1, 9)] if k == 2 else [r.randint(1, 4) for _ in range(N)])))
    return s


def check(c):
    b = c.build('dms.cpp', extra=('-fopenmp',))
    big = c.thorough
    c.model_check('DmsMC', cfg('FALSE', 4 if big else 3), 'transcriptions')
    g = c.generate('DmsMC', cfg('TRUE', 2 if big else 1), 'transcriptions', workers=1, limit=8000 if big else 400)
    c.conform(b, 'DmsTrace', g, 'transition tour')
    c.conform(b, 'DmsTrace', [run(c.rng) for _ in range(20000 if big else 2500)], 'random histories')
    c.conform(b, 'DmsTrace', [aux(c.rng) for _ in range(600 if big else 80)], 'splines and grids')
