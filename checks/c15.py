"""C15: the joint layer of the robot part (spec/Robot.tla)."""
ASSUMPTIONS = ['plans of the trajectory generators with dyadic times (positions in 1/16, times in 1/64); angles not within rounding of the ends of the range',
               'two or three joints; Jacobians of full rank',
               'inverse kinematics: only the choice among the solutions, with a stand-in for the pose type (kindr is not available)']


def cfg(mode, gen, depth):
    inv = {'gen': 'Limits Straight Arrives Slope Tight', 'js': '', 'ctl': 'Bounded', 'act': 'Steady'}[mode]
    chk = '' if gen == 'TRUE' else (('INVARIANT %s\n' % inv if inv else '') + 'PROPERTY Clones\n')
    return 'INIT Init\nNEXT Next\nVIEW View\nCHECK_DEADLOCK FALSE\n%sCONSTANTS Mode = "%s" Gen = %s Depth = %d\n' % (chk, mode, gen, depth)


def plan(r):
    """x0, xT, v, a with dyadic times"""
    while True:
        v, a = r.choice([1, 2, 3, 4, 5, 6, 8]), r.choice([1, 2, 4, 8])
        x0 = r.randint(-100, 100)
        if r.random() < .5:
            d = a * r.randint(0, 12) ** 2
            if 16 * v * v < a * d: continue
        else:
            d = r.randint(1, 400) * v
            if not 16 * v * v < a * d or 64 * v % a or 4 * d % v: continue
        return x0, x0 + r.choice([-1, 1]) * d, v, a


def total(g):
    d = abs(g[1] - g[0])
    if 16 * g[2] ** 2 < g[3] * d: return 64 * g[2] // g[3] + 4 * d // g[2]
    return 32 * round((d / g[3]) ** .5)


def rand_gen(r):
    s, T = [], 64
    for _ in range(r.randint(15, 40)):
        o = r.random()
        if o < .25: g = plan(r); T = total(g); s.append(('gs', list(g)))
        elif o < .28: s.append(('gn', []))
        else: s.append(('gq', [r.choice([-3, 0, T, T - 1, T + 1, T // 2, T // 2 + 1, r.randint(0, T + 20), r.randint(0, T + 20), r.randint(0, T + 20)])]))
    return s


def rand_arm(r):
    s = []
    for _ in range(6):
        g, h = plan(r), plan(r)
        s.append(('arm', [g[2], h[2], g[3], h[3]]))
        for _ in range(2):
            T = max(total(g), total(h), 1)
            s.append(('ag', [g[0], h[0], g[1], h[1], r.randint(max(1, T // 25), max(2, T))]))
            g, h = (g[1], g[0]) + g[2:], h      # the way back of one joint, on the same object
    return s


def rand_js(r):
    s = []
    v = lambda n=9: r.randint(-n, n)
    for _ in range(40):
        k = r.randint(1, 2)
        o = r.choice(['js', 'js', 'jp', 'jv', 'jpb', 'jvb', 'jz', 'jcp', 'jg', 'jg', 'jop', 'jop', 'jlim', 'jlim', 'jvl', 'jvl', 'juq', 'juq', 'jas', 'jai', 'jag', 'jaz'])
        if o == 'js': s.append((o, [k] + [v() for _ in range(6)]))
        elif o in ('jp', 'jv'): s.append((o, [k, r.randint(0, 2), v()]))
        elif o in ('jpb', 'jvb'): s.append((o, [k] + [v() for _ in range(3)]))
        elif o in ('jz', 'jg'): s.append((o, [k]))
        elif o == 'jop':
            if r.random() < .3: s.append(('jcp', [])); s.append(('jp', [2, r.randint(0, 2), v()])) if r.random() < .5 else None
            s.append((o, [r.randint(0, 7), r.choice([-3, 1, 2, 5])]))
        elif o == 'jlim': s.append((o, [k, r.choice([0, 0, 1, 3])] + [r.randint(-10, 0) for _ in range(3)] + [r.randint(0, 10) for _ in range(3)]))
        elif o == 'jvl': s.append((o, [k] + [r.randint(0, 10) for _ in range(3)]))
        elif o == 'juq':
            tol = r.choice([0, 0, 1, 3, 7])
            q, l = [], []
            while len(q) < 3:
                a, b = r.randint(-150, 150), r.randint(-24, 12)
                if (a - b + tol) % 24 and (a - b - tol) % 24: q.append(a); l.append(b)
            s.append((o, [tol] + q + l))
        elif o == 'jas': s.append((o, [v() for _ in range(3)]))
        elif o == 'jai': s.append((o, [r.randint(0, 2), v()]))
        else: s.append((o, []))
    return s


def rand_ctl(r):
    v = lambda n=9: r.randint(-n, n)
    par = lambda: [r.randint(-3, 5), r.randint(-3, 5), r.randint(-3, 5), r.choice([1, 2, 4]), r.choice([0, 2, 5, 40]), r.choice([3, 20, 900]), r.choice([-3, -20, -900])]
    pp = lambda: ('pp', (lambda m: [m] + [v() for _ in range(4)] + par() + (par() if m else []))(r.randint(0, 1)))
    s = [pp()]
    for _ in range(40):
        o = r.choice(['pc'] * 6 + ['pd', 'pd1', 'pg', 'pr', 'pp'])
        if o == 'pc': s.append((o, [v() for _ in range(4)]))
        elif o == 'pd': s.append((o, [v(), v()]))
        elif o == 'pd1': s.append((o, [r.randint(0, 1), v()]))
        elif o == 'pg': s.append((o, [v(5), v(5), v(5)]))
        elif o == 'pr': s.append((o, []))
        elif r.random() < .3: s.append(pp())
    return s


def rand_act(r):
    v = lambda n=9: r.randint(-n, n)
    s = []
    for _ in range(40):
        k = r.randint(1, 2)
        o = r.choice(['act', 'act', 'acl', 'ad', 'ad', 'ad', 'ao', 'as', 'sea', 'scl', 'sd', 'so', 'ss', 'ms', 'me', 'mc', 'mg', 'mg', 'jac', 'ik', 'ik', 'sel'])
        if o == 'act':
            m = r.randint(0, 4)
            s.append((o, [m] + [r.randint(1, 6) for _ in range({0: 1, 1: 1, 2: 2, 3: 2, 4: 0}[m])] + [r.randint(0, 8) for _ in range({0: 1, 1: 1, 2: 2, 3: 2, 4: 0}[m])] + {0: [], 1: [v()], 2: [], 3: [v(), v()], 4: [r.randint(0, 4)]}[m]))
        elif o in ('acl', 'scl'): s.append((o, []))
        elif o == 'ad': s.append((o, [k] + [v() for _ in range(6)]))
        elif o == 'ao': s.append((o, [k] + [v() for _ in range(4)]))
        elif o in ('as', 'sd'): s.append((o, [k, v(), v()]))
        elif o == 'sea': s.append((o, [r.choice([1, 2, 4, 5, 8]), r.choice([1, 2, 3, 4])]))
        elif o in ('so', 'ss'): s.append((o, [k] + [v() for _ in range(4)]))
        elif o == 'ms': s.append((o, [k, v()]))
        elif o == 'me': s.append((o, [k, r.randint(0, 2), v()]))
        elif o == 'mc': s.append((o, [k, r.randint(1, 2), r.randint(0, 1)]))
        elif o == 'mg': s.append((o, [k]))
        elif o == 'jac':
            J = [v(4) for _ in range(6)]
            a, b, c = sum(x * x for x in J[:3]), sum(x * y for x, y in zip(J[:3], J[3:])), sum(x * x for x in J[3:])
            if a * c - b * b > 0 and (a + c) ** 2 < 2000 * (a * c - b * b): s.append((o, J + [v(), v()]))
        elif o == 'ik':
            n = r.randint(0, 5)
            s.append((o, [r.randint(0, 1), n] + [v() for _ in range(3 + 3 * n)]))
        else: s.append((o, r.choice([[2, 3], [3, 3], [2, 8], [3, 9], [2, 5]]) + [r.randint(0, 1)]))
    return s


def check(c):
    b = c.build('robot.cpp')
    big = c.thorough
    c.model_check('RobotMC', cfg('gen', 'FALSE', 3 if big else 2), 'trajectory generator: limits, direction, ends, slope, time optimality')
    c.model_check('RobotMC', cfg('ctl', 'FALSE', 6 if big else 5), 'joint PID: bounds')
    c.model_check('RobotMC', cfg('act', 'FALSE', 4), 'actuators: steady state, clones')
    for mode, dep, lim, what in (('gen', 3, 8000, 'trajectory generator'), ('js', 4 if big else 3, 6000, 'joint states'), ('ctl', 5, 6000, 'joint PID'), ('act', 4, 6000, 'actuators and data maps')):
        g = c.generate('RobotMC', cfg(mode, 'TRUE', dep), what + ', transition tour', workers=1, limit=60000 if big else lim)
        c.conform(b, 'RobotTrace', g, what + ', transition tour')
    n = 4000 if big else 400
    for f, what in ((rand_gen, 'random plans and queries'), (rand_arm, 'random arm motions'), (rand_js, 'random joint state histories'), (rand_ctl, 'random joint PID histories'), (rand_act, 'random actuator, map, Jacobian and inverse kinematics histories')):
        c.conform(b, 'RobotTrace', [f(c.rng) for _ in range(n)], what)
