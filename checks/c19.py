"""C19: ct_rbd around the robot models (spec/RbdSys.tla): poses, states, end-effectors, dynamics, contact, systems, linearisation."""
import os
import subprocess

import vlib

ASSUMPTIONS = ['kindr, which ct_rbd needs and which is not installed, is replaced by harness/standin/kindr/Core (rotations, positions and velocities with its documented conventions)',
               'joint and base angles with rational sine and cosine, integer lengths, velocities and link inertias, where results are compared exactly; '
               'forward dynamics, projections, linearisations and inverse kinematics by their defining equation with tolerance']
# joints, floating base, end-effectors, link of each end-effector
BOTS = [('InvertedPendulum', 1, 0, [1]), ('DoubleInvertedPendulum', 2, 0, [2]), ('HyA', 6, 0, [6]), ('QuadrotorWithLoad', 2, 1, [2]), ('HyQ', 12, 1, [3, 6, 9, 12])]
LO = [-314, -76, -164, 0, -209, -52]
HI = [52, 85, 6, 226, 157, 52]


def ang(r, n, k):
    q = [r.randint(0, 3) for _ in range(n)]
    for i in r.sample(range(n), min(n, k)): q[i] = r.randint(0, 11)
    return q


def vec(r, n, m=2): return [r.randint(-m, m) for _ in range(n)]
def euler(r, k): return ang(r, 3, k)


def safe(r, k):
    """base angles away from the singularity of the Euler angles"""
    a = euler(r, k)
    if a[1] in (1, 3): a[1] = r.choice([0, 2])
    return a


def bent(r, b, n, k):
    """joint angles with the knees of HyQ bent (no singular legs)"""
    q = ang(r, n, 0)
    if b == 4:
        for l in range(4): q[3 * l] = r.choice([0, 2]); q[3 * l + 2] = r.choice([1, 3])
    for i in r.sample(range(n), min(n, k)):
        if b != 4 or i % 3 == 1: q[i] = r.randint(0, 11)
    return q


def pset(r, slot, k=1, z=None):
    how = r.randint(0, 8)
    return ('pset', [slot, how, r.randint(0, 1)] + euler(r, k) + vec(r, 2, 3) + [r.randint(-3, 3) if z is None else z])


def poses(r, b):
    s = [('bot', [b]), pset(r, 1), pset(r, 2)]
    for _ in range(r.randint(4, 12)):
        z = r.random()
        if z < .4: s.append(('pset', [r.randint(1, 2), r.randint(0, 9), r.randint(0, 1)] + euler(r, r.randint(0, 1)) + vec(r, 3, 3)))
        elif z < .55: s.append(('pref', [r.randint(1, 2), r.randint(1, 2)]))
        elif z < .65: s.append(('pcp', r.sample([1, 2], 2)))
        elif z < .8: s.append(('near', [r.randint(1, 2), r.randint(1, 2)]))
        else: s.append(('prot', [r.randint(1, 3)] + vec(r, 3, 9)))
    return s


def states(r, b):
    n = BOTS[b][1]
    s = [('bot', [b]), pset(r, 1)]
    for _ in range(r.randint(3, 6)):
        o = r.choice(['sv', 'sa', 's0', 'sf', 'sd'])
        if o == 'sf': a = vec(r, 2 * n + 3, 3)
        else:
            a = [r.randint(0, 1)] + (safe(r, 1) if o == 'sd' else euler(r, 1)) + vec(r, 3 + 2 * n + 6, 3)
            if o == 'sa': a += vec(r, 3, 9)
            if o == 'sd':
                a += vec(r, 6 + n, 9)
                if not a[0] and a[2] not in (4, 7, 8, 11): a[2] = 0      # the angles of a quaternion have a pitch within a quarter turn
        s.append((o, a))
    return s


def kin(r, b):
    name, n, f, ee = BOTS[b]
    s = [('bot', [b]), pset(r, 1, 1), pset(r, 2, 0)]
    for _ in range(r.randint(4, 9)):
        o = r.choice(['ee', 'ee', 'eev', 'eev', 'eef', 'eef', 'lnk', 'jb', 'cj', 'cd', 'cp', 'see', 'pset'])
        e = r.randint(1, len(ee)); sl = r.randint(1, 2)
        if o == 'pset': s.append(pset(r, sl, 2 - sl)); continue
        if o == 'ee': a = [e, sl] + ang(r, n, 1) + ([1] if r.random() < .3 else [])
        elif o == 'eev': a = [e, sl] + ang(r, n, 1) + vec(r, n + 6)
        elif o == 'eef': a = [e, sl] + ang(r, n, 1) + vec(r, 6)
        elif o == 'lnk': a = [r.randint(0, n)] + ang(r, n, 2)
        elif o == 'jb': a = [e] + ang(r, n, 2)
        elif o == 'cj': a = [r.randint(0, 2 ** len(ee) - 1)] + ang(r, n, 2)
        elif o == 'cd': a = [r.randint(0, 2 ** len(ee) - 1)] + ang(r, n, 1) + vec(r, n)
        elif o == 'cp':
            if n < 3: continue
            a = [r.randint(1, 2 ** len(ee) - 1)] + bent(r, b, n, 1) + vec(r, n)
            if b == 2: a[1:1 + n] = [r.choice([4, 6, 8, 9]) for _ in range(n)]
        else: a = [e, r.randint(1, n)]
        s.append((o, a))
    return s


def dyn(r, b):
    name, n, f, ee = BOTS[b]
    ne = len(ee)
    s = [('bot', [b]), ('ins', [r.randint(1, 40)]), pset(r, 1, 0), pset(r, 2, 0)]
    for _ in range(r.randint(3, 7)):
        if r.random() < .15: s.append(('ins', [r.randint(1, 40)]))
        ext = r.choice([0, r.randint(1, 40)])
        u = vec(r, n, 5)
        if f:
            o = r.choice(['xfa', 'xff', 'xfi', 'pfd', 'pfd', 'pid', 'gp', 'gr', 'gr'] if ne > 1 else ['xfa', 'xff', 'xfi', 'gp', 'gr'])
            if o in ('xfa', 'xff', 'xfi'): a = [ext, r.randint(1, 2)] + ang(r, n, 1) + vec(r, 2 * n) + vec(r, 12)
            elif o in ('pfd', 'pid'): a = [r.randint(0, 3), r.randint(1, 2 ** ne - 1), r.randint(1, 2)] + bent(r, b, n, 1) + vec(r, n + 6) + u
            elif o == 'gp': a = [r.randint(0, 3)] + safe(r, 1) + vec(r, 3 + n + 6 + n)
            else: a = [r.randint(0, 4) + 10 * r.randint(0, 1)] + safe(r, 1) + vec(r, 3) + bent(r, b, n, 1) + vec(r, 6 + n) + u + vec(r, 3 * ne, 5)
        else:
            o = r.choice(['xid', 'xfd', 'fs', 'fs', 'fk', 'tc', 'tg'])
            if o in ('xid', 'xfd'): a = [ext] + ang(r, n, 1) + vec(r, 2 * n)
            elif o == 'fs': a = [r.randint(0, 5) + 10 * r.randint(0, 1), r.randint(1, 2)] + ang(r, n, 1) + vec(r, 2 * n) + vec(r, 3 * ne, 5)
            elif o == 'fk': a = [r.randint(0, 1)] + vec(r, 3 * n, 9)
            else: a = [r.randint(0, 2) for _ in range(3)] + vec(r, 3) + ang(r, n, 1)
        s.append((o, a))
    return s


def contact(r, b):
    name, n, f, ee = BOTS[b]
    s = [('bot', [b]), pset(r, 1, 1, -20), pset(r, 2, 1, 20)]
    for _ in range(r.randint(3, 6)):
        sm = r.randint(0, 3)
        a = [sm, 0 if sm == 3 else r.choice([0, 1000]), r.randint(0, 1), r.randint(1, 20), r.randint(0, 5), r.randint(-3, 3), r.randint(0, 2 ** len(ee) - 1), r.randint(1, 2)]
        s.append(('cm', a + ang(r, n, 1) + vec(r, n + 6)))
    return s


def lin(r, b):
    name, n, f, ee = BOTS[b]
    s = [('bot', [b]), ('ins', [r.randint(1, 40)])]
    for _ in range(3):
        o = r.choice(['lx', 'lu', 'ld'] if f else ['lu', 'ld'])
        # a link of the quadrotor with load has no mass of its own: with its own inertias no joint acceleration is determined
        s.append((o, [0 if b == 3 else r.randint(0, 1)] + safe(r, 1) + vec(r, 3) + bent(r, b, n, 1) + vec(r, 6 + n) + vec(r, n, 5)))
    return s


def ik(r):
    s = [('bot', [2]), pset(r, 1, 1)]
    for _ in range(4):
        z = r.random()
        if z < .2: s.append(('iks', [r.randint(0, 1), r.choice([0, 0, 0, 100])])); s.append(('ikg', [r.randint(0, 1), r.choice([0, 0, 0, 100])]))
        else: s.append(('ik', [1] + [r.randint(l + 5, h - 5) for l, h in zip(LO, HI)]))
    return s


def check(c):
    big = c.thorough
    d = ('ct_models/include', 'ct_rbd/include', 'ct_rbd/include/ct', 'ct_rbd/include/ct/rbd', 'ct_rbd/include/ct/rbd/robot/kinematics/ikfast', 'ct_models/src')
    inc = ['-I%s/harness/standin' % vlib.VERIF] + ['-I%s/%s' % (vlib.REPO, x) for x in d]
    obj = os.path.join(c.work, 'transform6d.o')
    p = subprocess.run(['g++', '-std=c++98', '-O1', '-w', '-DIKFAST_NAMESPACE=hya_ik', '-DIKFAST_NO_MAIN'] + inc + ['-c', vlib.REPO + '/ct_models/src/HyA/transform6d.cpp', '-o', obj],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: raise vlib.Broken('harness does not compile:\n' + p.stdout[-4000:])
    bins = c.build_all([dict(src='rbdsys.cpp', name='rbdsys%d' % b, extra=tuple(inc), defs=('-DVP_BOT=%d' % b, '-DEIGEN_NO_DEBUG'), opt='-O0', quote=True,
                             libs=(obj, '-llapack') if b == 2 else ()) for b in range(5)])
    c.model_check('RbdSysMC', 'CONSTANT Depth = %d\nINIT Init\nNEXT Next\nINVARIANTS EndEff Angles Group\nCHECK_DEADLOCK FALSE\n' % (200 if big else 20),
                  'laws on the specification: Jacobian and velocity, its derivative and acceleration, power of end-effector forces, angle rates, poses as a group')
    k = 16 if big else 2
    for b in range(5):
        r = c.rng
        sc = []
        for f, num in ((poses, 60), (states, 40), (kin, 80), (dyn, 80), (contact, 30), (lin, 20)):
            sc += [f(r, b) for _ in range(num * k)]
        if b == 2: sc += [ik(r) for _ in range(40 * k)]
        c.conform(bins[b], 'RbdSysTrace', sc, BOTS[b][0])
