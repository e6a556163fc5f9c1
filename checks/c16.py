"""C16: derivative objects, automatic linearisers and solvers (spec/Deriv.tla)."""
ASSUMPTIONS = ['polynomial functions of up to three variables with small integer coefficients; derivatives judged to three decimals',
               'code generation (JIT) is not available: DerivativesCppadJIT, ADCodegenLinearizer and the CG linearisers are not exercised',
               'functions without branches and without time dependence (as the classes require)']


def cfg(gen, depth):
    return 'INIT Init\nNEXT Next\nVIEW View\nCHECK_DEADLOCK FALSE\n%sCONSTANTS Gen = %s Depth = %d\n' % ('' if gen == 'TRUE' else 'PROPERTY Own\n', gen, depth)


def coef(r): return [r.choice([0, 0, 0, 1, 2, -1, -2, 3]) for _ in range(24)]


def dims(r, k):
    if k in (0, 1, 4): return r.choice([(3, 2), (2, 1)])
    if k in (2, 3, 5): return r.choice([(3, 2), (3, 1), (2, 2), (2, 1), (1, 1), (1, 2)])
    return 3, 2


def rand(r):
    s, o = [], {}
    for _ in range(r.randint(10, 30)):
        z = r.random()
        i = r.choice(sorted(o)) if o else 0
        if z < .15 or not o:
            i, k = r.randint(1, 3), r.randint(0, 7)
            n, m = dims(r, k)
            s.append(('new', [i, k, n, m] + coef(r))); o[i] = (k, n, m)
        elif z < .25:
            k = o[i][0]
            if k not in (4, 5): continue
            n, m = dims(r, k) if k == 5 else o[i][1:]
            s.append(('upd', [i, n, m] + coef(r))); o[i] = (k, n, m)
        elif z < .35:
            j = r.randint(1, 3)
            if j != i: s.append(('cl', [i, j])); o[j] = o[i]
        else:
            k, n, m = o[i]
            x = [r.randint(-4, 4) for _ in range(n)]
            q = r.choice(['jac', 'jac', 'jac', 'f0', 'sj', 'hes', 'sh'])
            s.append((q, [i] + x + ([r.randint(-3, 3) for _ in range(m)] if q in ('hes', 'sh') else [])))
    return s


def solve(r):
    s = []
    for _ in range(12):
        n, m = r.randint(1, 4), r.randint(1, 3)
        L = [[r.randint(-2, 2) if j < i else r.randint(1, 3) if i == j else 0 for j in range(n)] for i in range(n)]
        A = [[sum(L[i][k] * L[j][k] for k in range(n)) for j in range(n)] for i in range(n)]
        o = 'ldl'
        if r.random() < .5:     # leading minors nonzero, not symmetric
            o = 'lu'
            if r.random() < .7:
                U = [[r.randint(-2, 2) if j > i else r.choice([-2, -1, 1, 2]) if i == j else 0 for j in range(n)] for i in range(n)]
                A = [[sum(L[i][k] * U[k][j] for k in range(n)) for j in range(n)] for i in range(n)]
        s.append((o, [n, m] + sum(A, []) + [r.randint(-5, 5) for _ in range(n * m)]))
    return s


def check(c):
    b = c.build('deriv.cpp', defs=('-DCPPAD',), libs=('-lcppad_lib',))
    big = c.thorough
    c.model_check('DerivMC', cfg('FALSE', 5 if big else 4), 'derivatives are differences; clones keep their function')
    g = c.generate('DerivMC', cfg('TRUE', 4 if big else 3), 'transition tour', workers=1, limit=60000 if big else 8000)
    c.conform(b, 'DerivTrace', g, 'transition tour')
    n = 6000 if big else 800
    c.conform(b, 'DerivTrace', [rand(c.rng) for _ in range(n)], 'random functions and histories')
    c.conform(b, 'DerivTrace', [solve(c.rng) for _ in range(n // 4)], 'linear solvers')
