"""Scripts for the NLOC solver (spec/Nloc.tla): random runs within the bounds in which the arithmetic stays exact."""


def cfg(gen, depth, algs, ks='{2, 3}', thr=1):
    return ('INIT Init\nNEXT Next\nVIEW View\nCHECK_DEADLOCK FALSE\nINVARIANT Dynamics SingleExact CostIs Sizes\nPROPERTY InitialState Descent GapsClose\n'
            'CONSTANTS Gen = %s Depth = %d Algs = %s Ks = %s Thr = %d\n' % (gen, depth, algs, ks, thr))


def settings(r, threads, K):
    a = r.randint(0, 6)
    m = {1: 4, 2: 4, 3: 3}.get(K, 2)
    return [a, K, 1 if a == 1 else r.choice([1, 1, 2, 3, 7]), r.choice([0, 1, 1, 2]), r.randint(1, m), r.choice([0, 0, 1, 1, 3]), threads, r.randint(1, budget(K))]


def budget(K):
    return 3 if K <= 2 else 2


def rand_run(r, threads):
    K = r.randint(1, 4)
    q = settings(r, threads, K)
    s = []
    if r.random() < .1: s.append(('new', [1, K, 2, 0, 1, 1, threads, 1]))
    s.append(('new', q))
    if r.random() < .05: s.append(('iter', []))
    if r.random() < .4: s.append(('cost', [r.randint(0, 30), r.randint(0, 90)]))
    for _ in range(r.randint(1, 4)):
        if r.random() < .15: s.append(('guess', [r.randint(0, 20), -1]))
        s.append(('guess', [r.randint(0, 20), r.choice([0, 0, 0, 1, 2])]))
        if r.random() < .4: s.append(('cost', [r.randint(0, 30), r.randint(0, 90)]))
        if r.random() < .3: s.append(('sys', [r.randint(-3, 3), r.randint(0, 1), r.choice([1000, 1000, 20, 12, 9])]))
        if r.random() < .3: s.append(('x0', [r.randint(-4, 4)]))
        b = budget(K)
        if r.random() < .2: s.append(('mpc', []))
        else:
            while b > 0:
                o = r.choice(['iter', 'iter', 'pf', 'solve'])
                if o == 'solve':
                    if q[7] > b: continue
                    b -= q[7]
                else: b -= 1
                s.append((o, []))
                if o != 'solve' and q[3] != 0 and b and r.random() < .3: s.append(('cost', [r.randint(0, 30), r.randint(0, 90)]))
                if o != 'solve' and b and r.random() < .3: s.append(('sys', [r.randint(-3, 3), r.randint(0, 1), r.choice([1000, 15, 12, 10, 8, 6, 5]) if q[3] else 1000]))
                if r.random() < .2: break
        z = r.random()
        if z < .15: K = r.randint(1, 4); s.append(('tf', [K]))
        if z < .3:
            m = {1: 4, 2: 4, 3: 3}.get(K, 2)
            q = settings(r, threads, K)
            if r.random() < .1: s.append(('conf', [1, K, 2, 0, 1, 1, threads, 1]))
            s.append(('conf', q))
    return s
