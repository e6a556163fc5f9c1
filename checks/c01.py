"""C01: trajectories and arrays follow the list-of-samples model (spec/Traj.tla)."""
from random import Random
INV = 'INVARIANT HistoryIndependent Balanced Sorted Between\n'
ASSUMPTIONS = ['time stamps are non-decreasing (the classes require it); interpolation gaps 1..8 ticks of 1/4',
               'scalar type double; element type StateVector<2>']


def cfg(maxt, maxl, slots, gen):
    return ('INIT Init\nNEXT Next\nVIEW View\nCHECK_DEADLOCK FALSE\n' + INV +
            'CONSTANTS MaxT = %d MaxL = %d Slots = %s Gen = %s\n' % (maxt, maxl, slots, gen))


def random_traj(rng, n):
    """A long random behaviour on both slots (only legal calls), tracking lengths only."""
    s = []
    T = {1: [], 2: []}          # time stamps
    D = {1: 0, 2: 0}            # data lengths
    val = lambda: rng.randint(-50, 50)

    def times(k):
        t, out = rng.randint(-8, 8), []
        for _ in range(k):
            out.append(t)
            t += rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8])
        return out
    for _ in range(n):
        k = rng.choice([1, 2]); j = 3 - k
        o = rng.choice(['eval'] * 8 + ['idx'] * 4 + ['push'] * 6 + ['mk', 'mkt', 'copy', 'assign', 'sub', 'setT', 'setD', 'type',
                        'shift', 'pop', 'efr', 'clear', 'swap', 'wr', 'size', 'ends', 'at', 'dump', 'dump'])
        tm, ok = T[k], len(T[k]) == D[k]
        lo, hi = (tm[0], tm[-1]) if tm else (0, 4)
        if o in ('eval', 'idx'):
            q = rng.choice(tm) if tm and rng.random() < .5 else rng.randint(lo - 3, hi + 3)
            s.append((o, [k, q]))
        elif o == 'push':
            if not ok or len(tm) >= 9: continue
            if tm and rng.random() < .5:
                d = rng.randint(0, 8); s.append(('push', [k, val(), d, 0])); tm.append(tm[-1] + d)
            else:
                t = (tm[-1] if tm else 0) + rng.randint(0, 8); s.append(('push', [k, val(), t, 1])); tm.append(t)
            D[k] += 1
        elif o == 'mk':
            m, dt, t0 = rng.randint(0, 6), rng.randint(1, 8), rng.randint(-5, 5)
            s.append(('mk', [k, m, dt, t0, rng.randint(0, 1)] + [val() for _ in range(m)]))
            if m: T[k], D[k] = [t0 + i * dt for i in range(m)], m
        elif o == 'mkt':
            m = rng.randint(0, 6); tt = times(m)
            s.append(('mkt', [k, rng.randint(0, 1), m] + tt + [val() for _ in range(m)])); T[k], D[k] = tt, m
        elif o in ('copy', 'assign'):
            s.append((o, [k, j])); T[k], D[k] = list(T[j]), D[j]
        elif o == 'sub':
            if not T[j] or len(T[j]) != D[j]: continue
            a = rng.randrange(len(T[j])); b = rng.randrange(a, len(T[j]))
            s.append(('sub', [k, j, a, b])); T[k], D[k] = T[j][a:b + 1], b - a + 1
        elif o == 'setT':
            m = D[k] if rng.random() < .8 else rng.randint(0, 5); tt = times(m)
            s.append(('setT', [k, m] + tt)); T[k] = tt
        elif o == 'setD':
            m = len(tm) if rng.random() < .8 else rng.randint(0, 5)
            s.append(('setD', [k, m] + [val() for _ in range(m)])); D[k] = m
        elif o == 'type': s.append((o, [k, rng.randint(0, 1)]))
        elif o == 'shift':
            d = rng.randint(-5, 5); s.append((o, [k, d])); T[k] = [t - d for t in tm]
        elif o == 'pop':
            if not tm or not ok: continue
            s.append((o, [k])); tm.pop(); D[k] -= 1
        elif o == 'efr':
            if not ok: continue
            m = rng.randint(0, len(tm)); d = rng.randint(-3, 3)
            s.append((o, [k, m, d])); T[k] = [t - d for t in tm[m:]]; D[k] -= m
        elif o == 'clear': s.append((o, [k])); T[k], D[k] = [], 0
        elif o == 'swap': s.append((o, [1, 2])); T[1], T[2] = T[2], T[1]; D[1], D[2] = D[2], D[1]
        elif o == 'wr':
            if not D[k]: continue
            s.append((o, [k, rng.randrange(D[k]), val()]))
        elif o == 'ends':
            if tm and ok: s.append((o, [k]))
        elif o == 'at':
            if tm and ok: s.append((o, [k, rng.randrange(len(tm))]))
        else: s.append((o, [k]))
    return s + [('dump', [1]), ('dump', [2])]


def random_arr(rng, n):
    s, A = [], {1: [], 2: []}
    val = lambda: rng.randint(-20, 20)
    for _ in range(n):
        k = rng.choice([1, 2])
        o = rng.choice(['aset', 'amulS', 'adivS', 'aconst', 'aoff', 'aerase', 'aswap', 'acopy', 'aassign', 'aresize', 'apush', 'apop',
                        'aclear', 'aplus', 'aminus', 'aplusE', 'aminusE', 'adump', 'adump', 'aend', 'tarr', 'tconst', 'lin', 'eig', 'tpose', 'aset2'])
        q = A[k]
        if o == 'aset2':
            m = rng.randint(1, 5)
            for kk in (1, 2):
                A[kk] = [val() for _ in range(m)]; s.append(('aset', [kk, m] + A[kk]))
        elif o == 'aset': m = rng.randint(0, 5); A[k] = [val() for _ in range(m)]; s.append((o, [k, m] + A[k]))
        elif o == 'amulS':
            c = rng.randint(-4, 4)
            if any(abs(v * c) > 10000 for v in q): continue
            A[k] = [v * c for v in q]; s.append((o, [k, c]))
        elif o == 'adivS':
            c = rng.choice([1, 2, 4])
            if any(v % c for v in q): continue
            A[k] = [v // c for v in q]; s.append((o, [k, c]))
        elif o == 'aconst': v = val(); A[k] = [v] * len(q); s.append((o, [k, v]))
        elif o == 'aoff': v = val(); A[k] = [x + v for x in q]; s.append((o, [k, v]))
        elif o == 'aerase': m = rng.randint(0, len(q)); A[k] = q[m:]; s.append((o, [k, m]))
        elif o == 'aswap': A[1], A[2] = A[2], A[1]; s.append((o, [1, 2]))
        elif o in ('acopy', 'aassign'): A[k] = list(A[3 - k]); s.append((o, [k, 3 - k]))
        elif o == 'aresize': m, v = rng.randint(0, 6), val(); A[k] = (q + [v] * 9)[:m]; s.append((o, [k, m, v]))
        elif o == 'apush': v = val(); q.append(v); s.append((o, [k, v]))
        elif o == 'apop':
            if q: q.pop(); s.append((o, [k]))
        elif o == 'aclear': A[k] = []; s.append((o, [k]))
        elif o in ('aplusE', 'aminusE'):
            if any(abs(v) > 5000 for v in A[1] + A[2]): continue
            if len(A[1]) == len(A[2]): A[1] = [x + y if o == 'aplusE' else x - y for x, y in zip(A[1], A[2])]
            s.append((o, []))
        elif o in ('aplus', 'aminus'): s.append((o, []))
        elif o == 'aend':
            if q: s.append((o, [k]))
        elif o == 'tarr': s.append((o, [rng.randint(1, 6), rng.choice([0, 1, 2, 3, 5, 9, 17]), rng.randint(-5, 9)]))
        elif o == 'tconst': s.append((o, [rng.randint(0, 6), rng.randint(-9, 9)]))
        elif o == 'lin': s.append((o, [rng.randint(-9, 9), rng.randint(-5, 5), rng.choice([0, 1, 2, 3, 5, 9])]))
        else: s.append((o, [k]))
    return s + [('adump', [1]), ('adump', [2])]


def check(c):
    b = c.build('traj.cpp')
    big = c.thorough
    c.model_check('TrajMC', cfg(4, 4, '{1}', 'FALSE') if not big else cfg(5, 5, '{1}', 'FALSE'), 'one trajectory, all edits and lookups')
    g = c.generate('TrajMC', cfg(3, 3, '{1}', 'TRUE') if not big else cfg(4, 4, '{1}', 'TRUE'), 'one trajectory, transition tour', workers=1)
    c.conform(b, 'TrajTrace', g, 'transition tour, one trajectory')
    g = c.generate('TrajMC', cfg(1, 2, '{1, 2}', 'TRUE'), 'two trajectories, transition tour', workers=1, limit=None if big else 6000)
    c.conform(b, 'TrajTrace', g, 'transition tour, two trajectories')
    n = 3000 if big else 500
    c.conform(b, 'TrajTrace', [random_traj(c.rng, 60) for _ in range(n)] + [random_arr(c.rng, 50) for _ in range(n // 2)], 'random behaviours')
