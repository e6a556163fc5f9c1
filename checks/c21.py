"""C21: what is built on the robot models of ct_rbd (spec/RbdCtl.tla): world Jacobians, operational space, controllers, inverse kinematics as NLP."""
import c19
import vlib

ASSUMPTIONS = c19.ASSUMPTIONS[:1] + ['Jacobians, model terms, accelerations, joint torques of set points and the cost of the inverse kinematics problem (without a weight on the rotation) are compared exactly; '
                                     'pseudo-inverses, null spaces, projected torques, gains and the rotation cost by their defining equations with tolerance',
                                     'the inverse kinematics problem is the one handed to a solver (IPOPT is not installed)']
ang, vec, bent = c19.ang, c19.vec, c19.bent
DIP, HYA, HYQ = 1, 2, 4


def rot(c):
    t = [[1, 0], [.8, .6], [.6, .8]]
    def cs(k):
        x, y = t[k // 4]
        for _ in range(k % 4): x, y = -y, x
        return x, y
    (a, b), (c2, d), (e, f) = map(cs, c)
    X = [[1, 0, 0], [0, a, -b], [0, b, a]]; Y = [[c2, 0, d], [0, 1, 0], [-d, 0, c2]]; Z = [[e, -f, 0], [f, e, 0], [0, 0, 1]]
    m = lambda p, q: [[sum(p[i][k] * q[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
    return m(m(X, Y), Z)


def regular(c, d):
    """the orientation d seen from c has Euler angles away from their singularity"""
    A, B_ = rot(c), rot(d)
    return abs(sum(A[k][0] * B_[k][2] for k in range(3))) < .99


def pose(r, slot, k=1): return ('ps', [slot, r.randint(0, 1)] + ang(r, 3, k) + vec(r, 3, 3))
def gains(r): return [r.randint(1, 9) if r.random() < .9 else 0 for _ in range(6)]


def task(r, b, n):
    """cached task Jacobian: updates and queries in any order"""
    s = [('bot', [b])]
    for _ in range(r.randint(2, 5)):
        w = r.choice([0, 0, 1, 2])
        s.append(('oju', [w] + vec(r, n, 3)))
        for _ in range(r.randint(0, 6)):
            k = r.randint(0, 6)
            s.append(('ojq', [2 if k == 3 and w else k]))
    return s


def frames(r, b, n):
    s = [('bot', [b]), pose(r, 1), pose(r, 2)]
    for _ in range(r.randint(1, 4)):
        if r.random() < .3: s.append(pose(r, r.randint(1, 2), 2))
        s.append(('fj', [r.randint(1, 2)] + vec(r, 3, 3) + vec(r, 6) + vec(r, n) + [r.randint(1, 60), r.randint(1, 60)]))
    return s


def idc(r):
    n = 12
    s = [('bot', [HYQ]), ('ins', [r.randint(1, 40)])]
    cur = {}
    des = [0, 0, 0]
    def sp(slot):
        s.append(pose(r, slot)); cur[slot] = s[-1][1][2:5]
    sp(1); sp(2)
    for _ in range(r.randint(6, 14)):
        o = r.choice(['ps', 'ids', 'ikp', 'ikd', 'inew', 'ia', 'ia', 'ia', 'it'])
        k = r.randint(1, 2)
        if o == 'ps': sp(k)
        elif o == 'ids': s.append((o, [k] + vec(r, 6))); des = cur[k]
        elif o in ('ikp', 'ikd'): s.append((o, gains(r)))
        elif o == 'inew':
            h = r.choice([0, 1, 1, 2])
            s.append((o, [h]))
            if not h: des = [0, 0, 0]
        elif regular(cur[k], des):
            if o == 'ia': s.append((o, [k] + vec(r, 6)))
            else: s.append((o, [k, r.randint(1, 15), r.randint(0, 2)] + bent(r, HYQ, n, 1) + vec(r, 6 + n)))
    return s


def wbc(r):
    n = 12
    s = [('bot', [HYQ])]
    t = 0
    for _ in range(r.randint(4, 10)):
        o = r.choice(['wg', 'wp', 'wj', 'wr', 'wc', 'wc', 'wc'])
        if o == 'wg': a = [r.randint(0, 9), r.randint(0, 9)]
        elif o == 'wp': a = vec(r, n, 5)
        elif o == 'wj': a = [r.randint(0, n - 1), r.randint(-9, 9)]
        elif o == 'wr': a = []
        else: t += 1; a = [t] + ang(r, 3, 1) + vec(r, 3 + n + 6 + n, 5)
        s.append((o, a))
    return s


def opspace(r):
    n = 12
    s = [('bot', [HYQ]), ('ins', [r.randint(1, 40)]), pose(r, 1, 0), pose(r, 2, 0)]
    for _ in range(r.randint(2, 4)):
        s.append((r.choice(['om', 'oo']), [r.randint(1, 2)] + ang(r, n, 1) + vec(r, 2 * n + 12)))
    return s


def nlp(r):
    n = 6
    rw = r.choice([0, 0, 0, 1, 2])
    s = [('bot', [HYA]), pose(r, 1), pose(r, 2)]
    def new(): s.append(('nnew', ([1, 1, 1, 1] if rw == 1 else [r.randint(0, 3) for _ in range(3)] + [rw]) + vec(r, n, 9) + vec(r, n, 9)))
    new()
    for _ in range(r.randint(5, 12)):
        o = r.choice(['nt', 'nr', 'ng', 'nx', 'ns', 'ne', 'ne', 'ne', 'ps', 'nz', 'nnew'])
        if o == 'nt': a = [r.randint(0, 1), r.randint(1, 2)]
        elif o == 'nr': a = [r.randint(0, 3)]
        elif o == 'ng': a = ang(r, n, 1)
        elif o == 'nx': a = [r.choice([0, 1, 1])] + ang(r, n, 1)
        elif o == 'ps': s.append(pose(r, r.randint(1, 2))); continue
        elif o == 'nz': a = [r.randint(0, 2)]
        elif o == 'nnew':
            if r.random() < .3: new()
            continue
        elif o == 'ne': o = 'nn' if rw else 'ne'; a = [r.randint(1, 3)]
        else: a = []
        s.append((o, a))
    return s


def lqr(r):
    n = 6
    s = [('bot', [HYA]), ('ins', [r.randint(1, 40)]), ('lnew', [])]
    sp = [0] * (2 * n)
    for _ in range(r.randint(3, 6)):
        o = r.choice(['ld', 'lc', 'lc'])
        if o == 'ld':
            sp = ang(r, n, 1) + ([0] * n if r.random() < .7 else vec(r, n, 1))
            s.append((o, [r.randint(0, 1), r.randint(1, 4), r.randint(1, 4)] + sp))
        else: s.append((o, [r.randint(0, 1)] + (sp if r.random() < .4 else ang(r, n, 1) + vec(r, n))))
    return s


def nloc(r):
    """optimal control of a robot: initial guesses, then iterations"""
    n = 2
    s = [('bot', [DIP]), ('ins', [r.randint(1, 40)])]
    act = r.randint(0, 1)
    s.append(('fnew', [act]))
    for _ in range(r.randint(2, 4)):
        o = r.choice(['fst', 'fex', 'fin'])
        a = [act, r.randint(2, 5)] + ang(r, n, 1) + vec(r, n, 2) + vec(r, n, 3) + [r.choice([0, r.randint(1, 60)])]
        if o == 'fin': a += [r.randint(0, 1)] + ang(r, n, 1) + vec(r, n, 2)
        s.append((o, a))
        if r.random() < (.2 if a[8] else .7): s.append(('fit', [act, r.randint(0, 1)]))
    return s


def check(c):
    big = c.thorough
    d = ('ct_models/include', 'ct_rbd/include', 'ct_rbd/include/ct', 'ct_rbd/include/ct/rbd', 'ct_rbd/include/ct/rbd/robot/kinematics/ikfast', 'ct_models/src')
    inc = ['-I%s/harness/standin' % vlib.VERIF] + ['-I%s/%s' % (vlib.REPO, x) for x in d]
    bins = c.build_all([dict(src='rbdctl.cpp', name='rbdctl%d' % b, extra=tuple(inc), defs=('-DVP_BOT=%d' % b, '-DEIGEN_NO_DEBUG', '-DCT_USE_LAPACK'), opt='-O0', quote=True, libs=('-llapack', '-lblas')) for b in (DIP, HYA, HYQ)])
    c.model_check('RbdCtlMC', 'CONSTANT Depth = %d\nINIT Init\nNEXT Next\nINVARIANTS WorldVelocity WorldAcceleration Descent Servo\nCHECK_DEADLOCK FALSE\n' % (120 if big else 15),
                  'laws on the specification: world Jacobian and velocity, its derivative and acceleration, gradient of the inverse kinematics cost, error of the controller')
    k = 12 if big else 1
    r = c.rng
    for i, (b, n) in enumerate(((DIP, 2), (HYA, 6), (HYQ, 12))):
        sc = [nloc(r) for _ in range(120 * k)] if b == DIP else [task(r, b, n) for _ in range(60 * k)] + [frames(r, b, n) for _ in range(40 * k)]
        if b == HYA: sc += [nlp(r) for _ in range(120 * k)] + [lqr(r) for _ in range(25 * k)]
        elif b == HYQ: sc += [idc(r) for _ in range(120 * k)] + [wbc(r) for _ in range(60 * k)] + [opspace(r) for _ in range(60 * k)]
        c.conform(bins[i], 'RbdCtlTrace', sc, c19.BOTS[b][0])
