"""C17: settings loaded from files (spec/Settings.tla)."""
ASSUMPTIONS = ['what a settings object contains after a refused load, incomplete line search sections of an NLOptCon file and unknown names of methods (the program is ended) are left open',
               'values are thousandths, integers, flags and the documented names']
N = {1: 8, 2: 2, 3: 33, 4: 5, 5: 21, 6: 29, 7: 13, 8: 53, 9: 11, 10: 3}
LS = [4, 0, -1, -1, 2, -1, 2, -1]          # number of named values, 2 flag, 0 integer, -1 real
LQ = [0, 2]
NL = [-1, 2, -1, -1, -1, -1, 0, 0, 3, 2, 2, 2, 2, -1, 0, 0, 0, 2, 2, 11, 5, 7, 2] + LS + LQ
SN = [0, 0, 0, 0, -1]
IP = [0, 2, 2, 0, -1, 2, -1, -1, -1, -1, 2, 3, 2, 2, -1, -1, -1, 2, 2, 3, 2]
NP = [2, 2, 2] + IP + SN
CP = [2] * 9 + [0, 2, 2, 2]
DM = [0, -1, 0, 2, 2, 2, -1, 3, -1, -1, -1] + NP + CP
T = {1: LS, 2: LQ, 3: NL, 4: SN, 5: IP, 6: NP, 7: CP, 8: DM, 9: [2, 2, -1, 11, 0, 0, -1, 2, 2, -1, 2], 10: [-1, -1, 0]}


def cfg(gen, depth, cl):
    return 'INIT Init\nNEXT Next\nVIEW View\nCHECK_DEADLOCK FALSE\n%sCONSTANTS Gen = %s Depth = %d Classes = %s\n' % ('' if gen == 'TRUE' else 'PROPERTY Own\n', gen, depth, cl)


def val(r, c, i):
    t = T[c][i - 1]
    if t > 0: return r.randint(0, t - 1)
    if t == 0: return r.choice([1, 2, 3, 5, 30, 99, 100, 101, 500, 1000, 1001]) if r.random() < .9 else r.randint(0, 40)
    return r.choice([0, 1, 9, 10, 11, 20, 500, 999, 1000, 1001, 2500, 100000, 100001]) if r.random() < .5 else r.randint(1, 1500)


def rand(r):
    s, live = [], {}
    for _ in range(r.randint(6, 16)):
        z = r.random()
        if z < .2 or not live:
            k, c = r.randint(0, 2), r.choice([1, 2, 3, 3, 3, 4, 5, 6, 7, 8, 8, 9, 10])
            s.append(('init', [k, c] + [val(r, c, i) for i in range(1, N[c] + 1)])); live[k, c] = 1; continue
        k, c = r.choice(sorted(live))
        if z < .55:
            p = r.choice([1, 1, .9, .5, .2])
            if c not in (2, 3, 10) and r.random() < .8: p = 1
            I = [i for i in range(1, N[c] + 1) if r.random() < p]
            if c == 3:
                ls = r.random() < .5
                I = [i for i in I if not 24 <= i <= 31 or (ls and i >= 29)] + ([24, 25, 26, 27, 28] if ls else [])
            if c in (1, 5): I = I if r.random() < .3 else sorted(set(I) | set(range(1, 6)))
            f = {i: val(r, c, i) for i in I}
            if c == 7 and 13 in f and r.random() < .2: f[13] = 2
            full = len(f) == N[c]
            r.shuffle(I)
            v = r.choice([0, 0, 1] + ([2] if full and c == 3 else []))
            s.append(('load', [k, c, r.randint(0, 2), v] + sum(([i, f[i]] for i in I), [])))
            need = {1: range(1, 6), 4: range(1, 6), 5: range(1, 6), 7: range(1, 14), 9: range(1, 12)}
            def ok(c, off):
                if c == 6:
                    return all(off + i in f for i in (1, 2, 3)) and (ok(5, off + 3) if f[off + 1] == 0 else ok(4, off + 24))
                if c == 8:
                    return all(i in f for i in range(1, 12)) and ok(6, 11) and ok(7, 40)
                return all(off + i in f for i in need.get(c, []))
            if not ok(c, 0): del live[k, c]
            else: s.append(('get', [k, c]))
        elif z < .65: s.append(('get', [k, c]))
        elif z < .75: i = r.randint(1, N[c]); s.append(('set', [k, c, i, val(r, c, i)]))
        elif z < .8:
            j = r.randint(0, 2)
            if j != k: s.append(('cp', [k, j, c])); live[j, c] = 1
        elif c in (1, 3, 8): s.append(('ok', [k, c]))
        if c == 3 and (k, c) in live and r.random() < .5:
            s.append(('set', [k, 3, 14, r.choice([1, 10, 20, 250, 1000])])); s.append(('set', [k, 3, 15, r.randint(1, 5)])); s.append(('alg', [k]))
            dt = s[-3][1][3]
            for _ in range(3):
                h = r.choice([-1, 0, 1, 5, 1000, 2500, 333, 4999, r.randint(0, 5000)])
                if (2 * h + dt) % (2 * dt): s.append(('K', [k, h]))
    return s


def good(r):
    """settings near the bounds of the admissible ones"""
    s = []
    v = [1] * 33; v[13] = 10; v[14] = v[15] = 1; v[21] = 0; v[7] = v[16] = 4; v[25] = v[30] = 1000; v[26] = 500
    d = [0] * 53; d[0] = 30; d[1] = 5000; d[2] = 1; d[6] = 100; d[7] = 1; d[8] = 10; d[9] = d[10] = 1
    for c, b, e in ((3, v, {14: [-1, 0, 1], 15: [0, 1], 16: [0, 1, 2], 22: [0, 1, 2, 4], 8: [100, 101, 0], 17: [100, 101], 26: [0, 1, -5], 27: [0, 1, 999, 1000], 31: [0, 1, -1], 1: [0], 7: [0]}),
                    (8, d, {1: [0, 1, 1000, 1001], 2: [0, 99, 100, 101], 3: [0, 1, 32, 33], 7: [9, 10, 5000, 5001], 9: [0, 1, 100000, 100001], 10: [0, 1, 1000, 1001], 11: [0, 1, 1000, 1001], 12: [0, 1], 8: [0, 2]})):
        w = list(b)
        for i in r.sample(sorted(e), r.choice([0, 1, 1, 2])): w[i - 1] = r.choice(e[i])
        s += [('init', [0, c] + w), ('ok', [0, c])]
        if c == 3: s += [('init', [0, 1] + w[23:31]), ('ok', [0, 1])]
    return s


def util(r):
    s = []
    for _ in range(8):
        n, m = r.choice([(2, 3), (3, 1), (1, 1), (2, 2), (4, 2), (12, 1)])
        e = [(i, j) for i in range(n) for j in range(m) if r.random() < .6]
        s.append(('mat', [n, m, r.randint(0, 1), r.choice([0, 0, 2, -3])] + sum(([i, j, r.randint(-9, 9)] for i, j in e), [])))
        s.append(('sc', [r.randint(0, 1), r.randint(0, 1), r.randint(0, 1), r.randint(-9, 9), r.randint(-9, 9)]))
    return s


def check(c):
    b = c.build('settings.cpp')
    big = c.thorough
    for cl in ('{1, 2}', '{4, 7}', '{5, 10}', '{3}', '{6}', '{8}', '{9}'):
        c.model_check('SettingsMC', cfg('FALSE', 4 if big else 3, cl), 'loading, classes ' + cl)
        g = c.generate('SettingsMC', cfg('TRUE', 4 if big and cl not in ('{8}',) else 3, cl), 'transition tour, classes ' + cl, workers=1, limit=4000 if big else 700)
        c.conform(b, 'SettingsTrace', g, 'transition tour, classes ' + cl)
    n = 5000 if big else 900
    c.conform(b, 'SettingsTrace', [[('dfl', [k])] for k in range(1, 10)], 'settings no file was loaded into')
    c.conform(b, 'SettingsTrace', [rand(c.rng) for _ in range(n)], 'random files and histories')
    c.conform(b, 'SettingsTrace', [good(c.rng) for _ in range(n)], 'admissible settings and their bounds')
    c.conform(b, 'SettingsTrace', [util(c.rng) for _ in range(n // 6)], 'matrices and scalars')
