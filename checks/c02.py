"""C02: switching (spec/Switch.tla)."""
ASSUMPTIONS = ['phase durations are non-negative; queries need at least one phase; switch events are asked only for existing switches']


def cfg(p, d, kinds, obj, gen):
    return ('INIT Init\nNEXT Next\nVIEW View\nCHECK_DEADLOCK FALSE\nINVARIANT Partition UpperBoundRule CloneFrozen\n'
            'CONSTANTS MaxP = %d MaxD = %d Kinds = %s Objects = %s Gen = %s\n' % (p, d, kinds, obj, gen))


def rand(rng):
    kind, start = rng.randint(0, 3), rng.randint(-6, 6)
    s = [('new', [kind, start])]
    ts, n, snap, cl = [start], 0, None, False
    for _ in range(rng.randint(1, 7)):
        d = rng.choice([0, 1, 1, 2, 3, 7]); s.append(('add', [rng.randint(0, 2), d])); ts.append(ts[-1] + d)
    T = lambda: rng.choice(ts) + rng.choice([-1, 0, 0, 0, 1]) if rng.random() < .8 else rng.randint(-20, 40)
    for _ in range(60):
        o = rng.choice(['t'] * 4 + ['f'] * 4 + ['auto'] * 4 + ['lin', 'lin', 'cnt', 'at', 'ff', 'sw', 'swt', 'add', 'mk', 'clone', 'set', 'ctl'])
        m = len(ts) - 1
        if o == 't': s.append((o, [T()]))
        elif o in ('f', 'auto', 'lin'):
            if snap is None: continue
            k = 2 if cl and rng.random() < .5 else 1
            if o == 'f': s.append((o, [k, rng.randint(-9, 9), rng.randint(-9, 9), rng.randint(-9, 9), T()]))
            elif o == 'auto': s.append((o, [k, rng.randint(-9, 9), rng.randint(-9, 9), T()]))
            elif kind in (1, 3): s.append((o, [k, T()]))
        elif o in ('cnt', 'ff'): s.append((o, []))
        elif o == 'at': s.append((o, [rng.randrange(m)]))
        elif o == 'sw':
            if m > 1: s.append((o, [rng.randrange(m - 1)]))
        elif o == 'swt':
            t = T()
            i = 0 if t < ts[0] else m - 1 if t >= ts[-1] else max(j for j in range(m) if ts[j] <= t)
            if i < m - 1: s.append((o, [t]))
        elif o == 'add':
            if m < 9: d = rng.choice([0, 1, 2, 5]); s.append((o, [rng.randint(0, 2), d])); ts.append(ts[-1] + d)
        elif o == 'mk':
            if rng.random() < .4 or snap is None: s.append((o, [rng.randint(0, 1)])); snap = 1
        elif o == 'clone':
            if snap: s.append((o, [])); cl = True
        elif o == 'set': s.append((o, [rng.randint(0, 2), rng.randint(-9, 9), rng.randint(-9, 9)]))
        elif o == 'ctl': s.append((o, [rng.randint(-9, 9)]))
    return s


def check(c):
    b = c.build('switch.cpp')
    big = c.thorough
    c.model_check('SwitchMC', cfg(5 if big else 4, 2, '{0, 2}', 'FALSE', 'FALSE'), 'mode sequences')
    g = c.generate('SwitchMC', cfg(3, 2, '{0, 2}', 'FALSE', 'TRUE'), 'mode sequences, transition tour', workers=1, limit=None if big else 8000)
    c.conform(b, 'SwitchTrace', g, 'mode sequences, transition tour')
    g = c.generate('SwitchMC', cfg(2, 1, '{0, 1, 2, 3}', 'TRUE', 'TRUE'), 'switched systems and clones, transition tour', workers=1, limit=60000 if big else 8000)
    c.conform(b, 'SwitchTrace', g, 'switched systems and clones, transition tour')
    c.conform(b, 'SwitchTrace', [rand(c.rng) for _ in range(6000 if big else 800)], 'random behaviours')
