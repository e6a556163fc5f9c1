"""C11: constraint terms and containers (spec/Constr.tla)."""
ASSUMPTIONS = ['3 states, 2 controls, integer data; the term types of the library plus a user-defined one with the default sparsity',
               'ConstraintContainerAD needs CppADCodeGen, which is not available in this sandbox']


def cfg(gen, depth, sw):
    inv = '' if gen == 'TRUE' else 'INVARIANT CloneFrozen DerivativeOnce Projects\n'
    return ('INIT Init\nNEXT Next\nVIEW View\nCHECK_DEADLOCK FALSE\n%sCONSTANTS Gen = %s Depth = %d Switched = %s\n' % (inv, gen, depth, sw))


def term(r):
    k = r.choice([1, 1, 2, 2, 3, 4, 5, 5])
    if k in (1, 2):
        n = 4 - k
        sp = r.randint(0, 1)
        m = [1] * n
        if sp:
            while True:
                m = [r.randint(0, 1) for _ in range(n)]
                if any(m): break
        lb = [r.randint(-4, 3) for _ in range(n)]
        ub = [b + r.randint(0, 5) for b in lb]
        if r.random() < .06:
            i = r.randrange(n)
            ub[i] = lb[i] - 1
        return [k, sp] + m + lb + ub
    if k == 3: return [3] + [r.randint(-3, 3) for _ in range(3)]
    if k == 4: return [4] + [r.randint(-2, 2) for _ in range(3)] + [r.randint(1, 3) for _ in range(3)] + [r.randint(-1, 2), r.randint(0, 2)]
    return [5, r.randint(-3, 3)]


def point(r, late=9): return [r.randint(-4, 4) for _ in range(5)] + [r.randint(0, late)]


def run(r):
    s = []
    live = []
    for i in (1, 2, 3):
        s.append(('new', [i, 1] + point(r) if r.random() < .4 else [i, 0]))
    live = [1, 2, 3]
    def ask(i, n=3):
        for _ in range(n):
            s.append(('q', [i, r.randint(0, 1), r.randint(0, 9)]))
        if r.random() < .2: s.append(('cnt', [i]))
    def full(i):
        for k in (0, 1):
            for w in range(10): s.append(('q', [i, k, w]))
        s.append(('cnt', [i]))
    def grow(i):
        t = term(r)
        s.append(('add', [i, r.randint(0, 1), int(t[0] in (1, 2) and t[1] == 1 and r.random() < .1)] + t))
    for i in live:
        for _ in range(r.randint(0, 3)): grow(i)
    sw = False
    for _ in range(r.randint(4, 14)):
        i = r.choice(live)
        z = r.random()
        if z < .2: grow(i)
        elif z < .45: s.append(('init', [i]))
        elif z < .6: s.append(('set', [i] + point(r)))
        elif z < .7:
            j = r.choice(live)
            if i != j:
                s.append(('clone', [i, j]))
                ask(j, 2)
        elif z < .85: s.append(('mut', [i, r.randint(0, 1), r.randint(1, 4), r.randint(-3, 3)]))
        else: full(i)
        ask(i, 2)
    if r.random() < .6:
        n = r.randint(1, 4)
        s.append(('switch', [4, r.randint(0, 2)] + sum(([r.randint(1, 3), r.choice([0, 1, 2, 3])] for _ in range(n)), [])))
        pre = [('set', [4] + point(r)), ('init', [4])]
        r.shuffle(pre)
        s += pre
        if pre[0][0] == 'set' or True: s.append(('set', [4] + point(r))) if r.random() < .5 else None
        for _ in range(r.randint(1, 4)):
            full(4)
            if r.random() < .3: s.append(('mut', [r.choice(live), r.randint(0, 1), r.randint(1, 4), r.randint(-3, 3)]))
            if r.random() < .5: s.append(('set', [4] + point(r)))
            elif r.random() < .5:
                j = r.choice(live)
                s.append(('clone', [4, j]))
                live.remove(j)
                full(j)
                s.append(('set', [j] + point(r)))
                full(4)
                if not live: break
    return s


def check(c):
    b = c.build('constr.cpp')
    big = c.thorough
    c.model_check('ConstrMC', cfg('FALSE', 5 if big else 4, 'FALSE'), 'containers')
    c.model_check('ConstrMC', cfg('FALSE', 7 if big else 6, 'TRUE'), 'switched containers')
    g = c.generate('ConstrMC', cfg('TRUE', 5 if big else 4, 'FALSE'), 'containers', workers=1, limit=12000 if big else 2000)
    g += c.generate('ConstrMC', cfg('TRUE', 6 if big else 5, 'TRUE'), 'switched containers', workers=1, limit=12000 if big else 2000)
    c.conform(b, 'ConstrTrace', g, 'transition tour')
    c.conform(b, 'ConstrTrace', [run(c.rng) for _ in range(20000 if big else 2000)], 'random histories')
