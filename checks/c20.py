"""C20: services of ct_core (spec/Util.tla)."""
ASSUMPTIONS = ['the random generators are judged by their support, by entries being drawn separately, and by statistics with margins beyond eight standard deviations',
               'a stop watch is read after it was started and stopped, or after a reset',
               'points of the plane estimation determine the plane (bounded condition number)']


def cfg(gen, depth, part):
    return 'INIT Init\nNEXT Next\nVIEW View\nCHECK_DEADLOCK FALSE\n%sCONSTANTS Gen = %s Depth = %d Part = "%s"\n' % ('' if gen == 'TRUE' else 'INVARIANT NothingLost Small\nPROPERTY Apart\n', gen, depth, part)


def rq(r):
    s, live = [], []
    for _ in range(r.randint(10, 40)):
        z = r.random()
        if z < .12 or not live:
            k = r.randint(0, 2); live = sorted(set(live) | {k})
            s.append(('qnew', [k, r.choice([0, 0, 5, -40]), r.choice([1, 3, 5, 16, 16, 24, 100]), r.randint(0, 1)]))
            continue
        k = r.choice(live)
        if z < .65: s.append(('qv', [k, r.choice([0, 0, 1, 2, 3, 5, 7]), r.choice([0, 8, -8, 16, r.randint(-100, 100), r.randint(-3000, 3000)])]))
        elif z < .85: s.append(('qvec', [k] + [r.randint(-80, 80) for _ in range(3)]))
        elif z < .93: s.append(('qreset', [k]))
        else:
            j = r.randint(0, 2)
            if j != k: s.append(('qcp', [k, j])); live = sorted(set(live) | {j})
    return s


def det3(m):
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def rmisc(r):
    s, planes = [], {}
    for _ in range(r.randint(8, 20)):
        z = r.randint(0, 6)
        if z == 0:
            for _ in range(9):
                p = [[r.randint(-5, 5) for _ in range(3)] for _ in range(r.randint(3, 8))]
                N = [[sum(q[i] * q[j] for q in p) for j in range(3)] for i in range(3)]
                t = N[0][0] + N[1][1] + N[2][2]
                if det3(N) * 60 > t ** 2: s.append(('pest', sum(p, []))); break      # smallest eigenvalue bounded below
            if r.random() < .2: s.append(('pest', [1, 2, 3, 4, 5, 6][:3 * r.randint(0, 2)]))
        elif z == 1: s.append(('ell', [r.randint(-3, 3) for _ in range(24)]))
        elif z == 2: s.append(('quat', r.choice([[1, 0, 0, 0], [1, 1, 0, 0], [1, -1, 1, 1], [0, 2, 0, -1], [3, 1, -2, 0], [-1, 2, 0, 2]])))
        elif z == 3 or not planes:
            k = r.randint(0, 2); planes[k] = 1
            s.append(('pnew', [k, r.randint(0, 2)] + [r.choice([-5, -3, -2, -1, 1, 2, 4, 7]) for _ in range(3)] + [r.randint(-9, 9)]))
        elif z == 4: s.append(('psolve', [r.choice(sorted(planes)), r.randint(1, 3), r.randint(-50, 50), r.randint(-50, 50)]))
        elif z == 5: s.append(('pcoef', [r.choice(sorted(planes)), r.randint(0, 5), r.choice([-4, -1, 2, 3])]))
        else:
            k, j = r.choice(sorted(planes)), r.randint(0, 2)
            s.append(('pcp', [k, j])); planes[j] = 1
            s.append(('pget', [r.choice(sorted(planes))]))
    return s


def rwatch(r):
    s, st = [], {}
    for _ in range(r.randint(10, 40)):
        k, z = r.randint(0, 3), r.random()
        a, b = st.get(k, (0, 0))
        if z < .3: s.append(('clk', [r.choice([1, 2, 9, 16, 100])]))
        elif z < .5: s.append(('tstart', [k, r.randint(-50, 50)])); st[k] = (1, b)
        elif z < .7 and a: s.append(('tstop', [k, r.randint(-50, 50)])); st[k] = (1, 1)
        elif z < .75: s.append(('treset', [k])); st[k] = (0, 0)
        elif a == b: s.append(('tget', [k]))
    for _ in range(r.randint(4, 14)):
        k, j, o = r.randint(0, 2), r.randint(0, 2), r.choice(['cnew', 'cu', 'cx', 'ccp', 'cget', 'crun', 'lset', 'lswap', 'lget', 'lget', 'cget'])
        v = [r.randint(-9, 9) for _ in range(r.randint(1, 5))]
        s.append((o, {'cnew': [k, r.randint(0, len(v))] + v, 'cu': [k] + v, 'cx': [k] + v, 'ccp': [k, j], 'lset': [k] + [r.randint(-9, 9) for _ in range(3)], 'lswap': [k, j]}.get(o, [k])))
        if o in ('lswap', 'ccp') and k == j: s.pop()
    return s


def check(c):
    b = c.build('util.cpp')
    big = c.thorough
    for part, d in (('q', 4), ('t', 6), ('p', 4), ('c', 4)):
        c.model_check('UtilMC', cfg('FALSE', d + big, part), 'services, part ' + part)
        g = c.generate('UtilMC', cfg('TRUE', d, part), 'transition tour, part ' + part, workers=1, limit=20000 if big else 1500)
        c.conform(b, 'UtilTrace', g, 'transition tour, part ' + part)
    n = 10000 if big else 900
    c.conform(b, 'UtilTrace', [rq(c.rng) for _ in range(n)], 'random quantisation histories')
    c.conform(b, 'UtilTrace', [rmisc(c.rng) for _ in range(n)], 'planes, estimation, ellipsoids')
    c.conform(b, 'UtilTrace', [rwatch(c.rng) for _ in range(n)], 'stop watches and stored trajectories')
    c.conform(b, 'UtilTrace', [[(o, [c.rng.randint(-80, 80), c.rng.choice([1, 16, 40]), 4000]) for o in ('uni', 'gauss')] for _ in range(60 if big else 15)], 'random generators')
