"""C04: controllers and closed loop (spec/Ctrl.tla)."""
ASSUMPTIONS = ['feedback sampled at one or more stamps with positive gaps; the discrete-time call is asked only for existing samples',
               'the simulator is observed on integral microsecond steps; its wall-clock pacing is not judged, only the simulated time']


def cfg(mode, seeds, gen, depth):
    return ('INIT Init\nNEXT Next\nVIEW View\nCHECK_DEADLOCK FALSE\nCONSTRAINT Bound\nINVARIANT PidBounds CloneFrozen HeldAtEnds\n'
            'CONSTANTS Mode = "%s" Seeds = %s Gen = %s Depth = %d\n' % (mode, seeds, gen, depth))


def rand_sf(r):
    s, n = [], {}
    have = set()
    kind = r.choice(['sf', 'sf', 'sf', 'cc', 'cf'])
    def new():
        if kind == 'sf':
            n[1] = r.randint(1, 6); s.append(('sf', [r.randint(0, 1), r.randint(-6, 6), r.choice([1, 2, 4]), n[1], r.randint(0, 99)]))
        elif kind == 'cc': s.append(('cc', [r.randint(-9, 9), r.randint(-9, 9)]))
        else: s.append(('cf', [r.randint(0, 99)]))
        have.add(1)
    new()
    sysok, syscl = False, False
    att = 0
    X = lambda: [r.randint(-9, 9), r.randint(-9, 9)]
    T = lambda: r.randint(-12, 30)
    for _ in range(r.randint(20, 60)):
        o = r.choice(['u'] * 6 + ['un', 'un', 'len', 'ext', 'clone', 'upd', 'mod', 'mod', 'sys', 'att', 'scl', 'dyn', 'dyn', 'dyn', 'cdyn', 'last'])
        k = r.choice(sorted(have))
        if o == 'u': s.append((o, [k] + X() + [T()]))
        elif o == 'un' and kind != 'cf': s.append((o, [k] + X() + [r.randrange(n[k]) if kind == 'sf' else r.randint(0, 9)]))
        elif o == 'len' and kind == 'sf': s.append((o, [k]))
        elif o == 'ext' and kind == 'sf': s.append((o, [k, r.randint(0, 99), r.randint(1, n[k] + 1)]))
        elif o == 'clone':
            if att != 2: s.append((o, [])); have.add(2); n[2] = n.get(1)
        elif o == 'upd' and kind == 'sf':
            m, q = r.choice([0, 0, 0, 1, 2, 3, 4]), r.randint(1, 6)
            s.append((o, [k, r.randint(0, 99), m, q]))
            if not m: n[k] = q
        elif o == 'mod':
            if kind == 'sf':
                if r.random() < .7: s.append(('edit', [k, r.randrange(n[k])] + X()))
                else: s.append(('shift', [k, r.randint(-4, 4)]))
            elif kind == 'cc': s.append(('setu', [k] + X()))
            else: s.append(('law', [k, r.randint(0, 99), r.randint(0, 1)]))
        elif o == 'sys' and (not sysok or r.random() < .3):
            att = r.choice([0] + [j for j in have if j < 3]); s.append((o, [att])); sysok, syscl = True, False
        elif o == 'att' and sysok: att = r.choice([0] + [j for j in have if j < 3]); s.append((o, [att]))
        elif o == 'scl' and sysok:
            s.append((o, [])); syscl = True
            have.discard(3)
            if att: have.add(3); n[3] = n.get(att)
        elif o in ('dyn', 'cdyn', 'last') and sysok:
            q = 2 if syscl and r.random() < .5 else 1
            s.append((o, [q] + (X() + [T()] + (X() if o == 'cdyn' else []) if o != 'last' else [])))
    return s


def rand_pid(r):
    par = lambda: [r.randint(-3, 5), r.randint(-3, 5), r.randint(-3, 5), r.choice([1, 2, 4]), r.choice([0, 2, 5, 40]), r.choice([3, 20, 900]), r.choice([-3, -20, -900, 1])]
    s = [('pid', par() + [r.randint(-9, 9), r.randint(-9, 9)])]
    two = False
    for _ in range(40):
        o = r.choice(['pu'] * 6 + ['pv'] * 3 + ['ppar', 'pcl', 'pset', 'psetv', 'pini', 'prst', 'pid'])
        k = 2 if two and r.random() < .5 else 1
        v = lambda: r.randint(-9, 9)
        if o in ('pu', 'pset', 'pini'): s.append((o, [k, v()]))
        elif o in ('pv', 'psetv'): s.append((o, [k, v(), v()]))
        elif o == 'ppar': s.append((o, [k] + par()))
        elif o == 'pcl': s.append((o, [])); two = True
        elif o == 'prst': s.append((o, [k]))
        elif r.random() < .2: s.append((o, par() + [v(), v()]))
    return s


def rand_so(r):
    s = [('so', [r.choice([-2, 1, 2, 3, 4, 6]), r.randint(-2, 4), r.randint(-3, 3)])]
    two = False
    for _ in range(30):
        o = r.choice(['so', 'sos', 'sok', 'socl', 'soq', 'soq', 'sod', 'sod', 'sod', 'step', 'step'])
        if o in ('so', 'sos'): s.append((o, [r.choice([-2, 0, 1, 2, 3, 4, 6]), r.randint(-2, 4), r.randint(-3, 3)]))
        elif o == 'soq': s.append((o, [2 if two and r.random() < .5 else 1]))
        elif o == 'sok': s.append((o, [r.randint(1, 6), r.randint(1, 5), r.randint(-2, 5), r.randint(-3, 3)]))
        elif o == 'socl': s.append((o, [])); two = True
        elif o == 'sod': s.append((o, [2 if two and r.random() < .5 else 1] + [r.randint(-9, 9) for _ in range(3)]))
        else: t = r.randint(-5, 9); s.append((o, [r.randint(-5, 5), t, t + r.choice([-1, 0, 1, 7])]))
    return s


def check(c):
    b = c.build('ctrl.cpp')
    big = c.thorough
    c.model_check('CtrlMC', cfg('pid', '{}', 'FALSE', 5 if big else 4), 'PID controller and clone')
    g = c.generate('CtrlMC', cfg('loop', '{1, 2}' if not big else '{1, 2, 3}', 'TRUE', 5), 'controllers, closed loop and clones, transition tour', workers=1, limit=60000 if big else 6000)
    c.conform(b, 'CtrlTrace', g, 'controllers, closed loop and clones, transition tour')
    g = c.generate('CtrlMC', cfg('pid', '{}', 'TRUE', 3), 'PID, transition tour', workers=1, limit=40000 if big else 6000)
    c.conform(b, 'CtrlTrace', g, 'PID, transition tour')
    n = 5000 if big else 700
    c.conform(b, 'CtrlTrace', [rand_sf(c.rng) for _ in range(n)], 'random controller behaviours')
    c.conform(b, 'CtrlTrace', [rand_pid(c.rng) for _ in range(n)], 'random PID behaviours')
    c.conform(b, 'CtrlTrace', [rand_so(c.rng) for _ in range(n // 4)], 'second-order system and step input')
    sims = [(1000, 4000), (1000, 3000), (700, 2000), (3000, 4000), (1000, 1000), (100, 300), (1300, 5000), (333, 1000)]
    sc = [[('sim', [x, y, 4, k, u])] for u in (0, 2) for k in (0, 1) for x, y in sims]
    if big: sc += [[('sim', [c.rng.randint(100, 3000), c.rng.randint(3000, 6000), 5, c.rng.randint(0, 1), c.rng.choice([0, 2, 3])])] for _ in range(60)]
    c.conform(b, 'CtrlTrace', sc, 'control simulator')
