"""C12: cost functions, cost terms and activations (spec/Cost.tla)."""
ASSUMPTIONS = ['3 states, 2 controls, integer data; smooth-abs terms on differences 0 and 3 with alpha 4 (rational values)',
               'CostFunctionAD needs CppADCodeGen, which is not available; TermStateBarrier does not compile when used',
               'numerical derivatives are judged where they are well conditioned']


def cfg(gen, depth, kind):
    inv = '' if gen == 'TRUE' else 'INVARIANT CloneFrozen DerivativeOnce\n'
    return ('INIT Init\nNEXT Next\nVIEW View\nCHECK_DEADLOCK FALSE\n%sCONSTANTS Gen = %s Depth = %d Simple = %s\n' % (inv, gen, depth, kind))


def vec(r, n, ab): return [r.choice([0, 3]) for _ in range(n)] if ab else [r.randint(-3, 3) for _ in range(n)]


def mtx(r, n): return [r.choice([0, 0, 1, 2, -1, -2]) for _ in range(n)]


def term(r, ab, k=None, loadable=False):
    if k is None:
        k = r.choice([1, 2, 2, 3, 4] + ([] if loadable else [5]) + ([6, 6] if ab else []))
    if k == 1: return [1] + mtx(r, 5) + [r.randint(-4, 4)]
    if k in (2, 4): return [k] + mtx(r, 13) + (vec(r, 5, ab) if r.random() < .7 else [0] * 5)
    if k == 3: return [3] + mtx(r, 6) + (vec(r, 5, ab) if r.random() < .7 else [0] * 5)
    if k == 5: return [5] + mtx(r, 13) + [r.randint(0, 1), r.randint(0, 1)] + [2 * r.randint(-2, 2) for _ in range(15)]
    return [6] + mtx(r, 5) + vec(r, 5, ab)


def act(r, loaded=False):
    k = r.choice([0, 0, 1, 2, 3])
    on = r.randint(0, 3)
    if k == 1: return [1, on, on + r.randint(0, 4)]
    if k == 2: return [2, on, on + r.randint(0, 5), r.randint(-2, 2), r.randint(-1, 3)]
    if k == 3:
        p = r.randint(1, 4)
        while True:
            q, off = r.randint(0, 4), r.randint(0, 3)
            if 4 * off + q * p <= 4 * p: break
        return [3, q, p, off, r.randint(0, 3), r.choice([-1, 5]) if loaded else -1]
    return [0]


def sym(r, n):
    m = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1): m[i][j] = m[j][i] = r.choice([0, 1, 2, -1])
    return sum(m, [])


def simple(r): return [0] * 30 if r.random() < .1 else sym(r, 3) + sym(r, 2) + [r.randint(-3, 3) for _ in range(8)] + sym(r, 3)


def run(r):
    s = []
    ab = r.random() < .3
    kinds = {}
    for i in (1, 2):
        if r.random() < .25:
            s.append(('new', [i] + simple(r)))
            kinds[i] = 's'
        else:
            s.append(('new', [i]))
            kinds[i] = 'a'
    def ask(i, all=False):
        ws = list(range(13)) if kinds[i] == 'a' else [0, 1, 2, 3, 4, 5, 6, 7, 8, 12]
        for w in (ws if all else r.sample(ws, 3)): s.append(('q', [i, w]))
    terms = {i: [[], []] for i in (1, 2, 3)}
    def add(i):
        f, t, a = r.randint(0, 1), term(r, ab), act(r)
        s.append(('add', [i, f, len(a)] + a + t))
        terms[i][f].append(t)
    for i in (1, 2):
        if kinds[i] == 'a':
            for _ in range(r.randint(0, 3)): add(i)
    for _ in range(r.randint(4, 14)):
        i = r.choice(list(kinds))
        z = r.random()
        ana = kinds[i] == 'a'
        if z < .12 and ana: add(i)
        elif z < .4: s.append(('set', [i] + vec(r, 5, ab) + [r.randint(0, 6)]))
        elif z < .47: s.append(('shift', [i, r.randint(0, 3)]))
        elif z < .55: s.append(('refx', [i] + vec(r, 3, ab)))
        elif z < .62: s.append(('refu', [i] + vec(r, 2, ab)))
        elif z < .68: s.append(('reff', [i] + vec(r, 3, ab)))
        elif z < .78:
            j = r.choice([1, 2, 3])
            if i != j:
                s.append(('clone', [i, j]))
                kinds[j] = kinds[i]
                terms[j] = [list(q) for q in terms[i]]
                ask(j, True)
        elif z < .86 and ana:
            f = r.randint(0, 1)
            if terms[i][f]:
                k = r.randrange(len(terms[i][f]))
                if terms[i][f][k][0] in (2, 3, 4, 5):
                    t = term(r, ab, terms[i][f][k][0])
                    if t[0] == 5: t[14] = terms[i][f][k][14]    # whether the controls are tracked is fixed at construction
                    if t:
                        a = act(r)
                        s.append(('upd', [i, f, k + 1, len(a)] + a + t))
        elif z < .92: s.append(('nd', [i, r.choice([2, 4])]))
        elif ana:
            n = r.randint(1, 4)
            terms[i] = [[], []]
            names = []
            for k in range(n):
                f, t, a = r.randint(0, 1), term(r, ab, loadable=True), act(r, True)
                s.append(('pend', [i, f, len(a)] + a + t))
                terms[i][f].append(t)
                if t[0] in (2, 3): names.append((f, len(terms[i][f]), k + 1))
            s.append(('load', [i]))
            for f, j, k in names: s.append(('name', [i, f, j, k]))
            ask(i, True)
        ask(i, r.random() < .3)
        if ana and r.random() < .2:
            f = r.randint(0, 1)
            if terms[i][f]: s.append(('ref', [i, f, r.randint(1, len(terms[i][f]))]))
    for i in kinds: ask(i, True)
    return s


def acts(r):
    s = []
    for _ in range(12):
        k = r.randint(1, 5)
        how = r.randint(0, 2)
        if k in (1, 2, 3):
            while True:
                a = act(r, how == 1)
                if a[0] == k: break
            if k == 3 and how == 1 and r.random() < .1: a[3] += 4
            for t in sorted(r.sample(range(0, 12), 4)): s.append(('act', [k, how] + a[1:] + [t]))
        elif k == 4:
            mu, sg = r.randint(-2, 3), r.choice([1, 2, 3])
            for d in r.sample([0, 1, -1, 2, -2, 3, -3, 4, -4], 4): s.append(('act', [4, how, mu, sg, mu + d * sg]))
        else:
            al = r.choice([1, 1, 2])
            lb = r.randint(-2, 2)
            ub = lb + r.randint(0, 2)
            fl = r.choice([[1, 1], [1, 0], [0, 1], [0, 0]])
            if how == 1 and r.random() < .1: lb = ub + 1
            for t in r.sample(range(ub - 4 // al, lb + 4 // al + 1), 3) if ub - 4 // al + 3 <= lb + 4 // al + 1 else [lb]:
                if max(abs(t - ub), abs(t - lb)) * al <= 4: s.append(('act', [5, how] + fl + [ub, lb, al, t]))
    return s


def check(c):
    b = c.build('cost.cpp')
    big = c.thorough
    c.model_check('CostMC', cfg('FALSE', 5 if big else 4, 'FALSE'), 'sums of terms')
    c.model_check('CostMC', cfg('FALSE', 6 if big else 5, 'TRUE'), 'simple quadratic')
    g = c.generate('CostMC', cfg('TRUE', 4 if big else 3, 'FALSE'), 'sums of terms', workers=1, limit=12000 if big else 2000)
    g += c.generate('CostMC', cfg('TRUE', 5 if big else 4, 'TRUE'), 'simple quadratic', workers=1, limit=6000 if big else 1000)
    c.conform(b, 'CostTrace', g, 'transition tour')
    c.conform(b, 'CostTrace', [run(c.rng) for _ in range(15000 if big else 1500)], 'random histories')
    c.conform(b, 'CostTrace', [acts(c.rng) for _ in range(3000 if big else 400)], 'activations')
