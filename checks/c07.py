"""C07: the multi-threaded backend (spec/Workers.tla: protocol; spec/Nloc.tla: results), under perturbed schedules."""
import vlib
from nloc_common import cfg, rand_run
ASSUMPTIONS = ['schedules of the real threads are perturbed (delays at signals, locks, condition variables and callbacks), not enumerated; the protocol itself is enumerated in Workers.tla',
               'an operation which does not return within 40 s is a hang']


def check(c):
    ts = ('-fsanitize=thread', '-DVP_TSAN')
    b, t1, t2 = c.build_all([dict(src='nloc.cpp', name='nloc', libs=('-ldl',), extra=('-rdynamic',)), dict(src='nloc.cpp', name='nloc_races', libs=('-ldl',), extra=ts),
                             dict(src='nloc.cpp', name='nloc_races_ct', libs=('-ldl',), extra=ts + ('-DCONT',))])
    big = c.thorough
    wcfg = 'INIT Init\nNEXT Next\nINVARIANT NoStray Once AllDone Largest NoneFound Counted\nCONSTANTS N = %d Items = %d Steps = %d Phases = %d\n'
    c.model_check('Workers', wcfg % (2, 4, 3, 3), 'worker protocol, 2 workers')
    c.model_check('Workers', wcfg % (3, 4, 3, 3 if big else 2), 'worker protocol, 3 workers')
    c.model_check('Workers', 'SPECIFICATION Live\nPROPERTY Terminates\nCONSTANTS N = 2 Items = 3 Steps = 2 Phases = 2\n', 'worker protocol, termination')
    procs = 8
    rounds = 8 if big else 1
    for k in range(rounds):
        g = []
        for t in (2, 3, 4):
            g += c.generate('NlocMC', cfg('TRUE', 4, '{0, 1, 2, 3, 4, 5, 6}', thr=t), 'solver runs with %d threads' % t, workers=1, limit=150)
        envs = [dict(PERTURB=str(c.seed * 1000 + k * 100 + i + 1)) for i in range(procs)]
        c.conform(b, 'NlocTrace', g, 'multi-threaded solver runs, transition tour', envs=envs, confirm=False)
        n = 1500
        envs = [dict(PERTURB=str(c.seed * 1000 + k * 100 + 50 + i)) for i in range(procs)]
        c.conform(b, 'NlocTrace', [rand_run(c.rng, c.rng.choice([2, 3, 4, 6])) for _ in range(n)], 'random multi-threaded solver runs', envs=envs, confirm=False)
    # the same runs with every pair of conflicting, unordered memory accesses of two threads recorded as part of the behaviour
    for bin, what in ((t1, 'discrete-time'), (t2, 'continuous-time')):
        try: works = c.run_harness(bin, [[('new', [0, 2, 1, 0, 1, 0, 2, 1])]], timeout=60, tag='probe')[0]
        except vlib.Broken: works = []
        if not works:
            c.log('thread sanitizer does not run here: data races are not recorded')
            continue
        for k in range(rounds):
            c.conform(bin, 'NlocTrace', [rand_run(c.rng, c.rng.choice([2, 3, 4])) for _ in range(400)], 'random multi-threaded runs, data races recorded, ' + what, envs=[{}] * 4, confirm=False, timeout=300)
