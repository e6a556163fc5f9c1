"""C08: the nonlinear optimal control solver's iteration (spec/Nloc.tla), single-threaded backend."""
from nloc_common import cfg, rand_run
ASSUMPTIONS = ['one state, one control, linear time-varying dynamics and constant Hessians, so that every quantity is exact',
               'discrete-time problems, and continuous-time ones integrated with Euler; Armijo parameter 0; feedback and trajectories compared bit for bit']


def check(c):
    b, bc = c.build_all([dict(src='nloc.cpp', libs=['-ldl'], extra=['-rdynamic'], name='nloc_discrete'),
                         dict(src='nloc.cpp', libs=['-ldl'], extra=['-rdynamic'], defs=['-DCONT'], name='nloc_continuous')])
    big = c.thorough
    c.model_check('NlocMC', cfg('FALSE', 6 if big else 5, '{0, 1, 2, 3, 4, 5, 6}'), 'solver runs, all algorithms')
    g = []
    for a in range(7):
        g += c.generate('NlocMC', cfg('TRUE', 6 if big else 5, '{%d}' % a), 'solver runs, algorithm %d' % a, workers=1, limit=4000 if big else 300)
    c.conform(b, 'NlocTrace', g, 'solver runs, transition tour')
    c.conform(bc, 'NlocTrace', g if big else g[::2], 'solver runs, transition tour, continuous-time problem')
    n = 20000 if big else 3000
    c.conform(b, 'NlocTrace', [rand_run(c.rng, 1) for _ in range(n)], 'random solver runs')
    c.conform(bc, 'NlocTrace', [rand_run(c.rng, 1) for _ in range(n)], 'random solver runs, continuous-time problem')
