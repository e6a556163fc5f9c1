#!/usr/bin/env python3
"""One-off generator of harness/robots_gen.h (adapters: member names of the generated robot classes) and of spec/Robots.tla (the
robots as trees of bodies).  The tree constants are read off the reference tree once, compared with the robot description files
(*.kindsl) where the repository has them, and are from then on part of the specification; no check runs this script."""
import re, subprocess, os, sys, numpy as np, itertools
REPO = os.environ.get('VP_REPO', '/repo')
M = REPO + '/ct_models/include/ct/models/'
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BOTS = [('InvertedPendulum', 'ct_InvertedPendulum', 0), ('DoubleInvertedPendulum', 'ct_DoubleInvertedPendulum', 0), ('HyA', 'ct_HyA', 0),
        ('QuadrotorWithLoad', 'ct_quadrotor', 1), ('HyQ', 'HyQ', 1)]
def rd(p): return open(p).read()
def names(d):
    dec = rd(M + d + '/generated/declarations.h')
    links = re.search(r'enum LinkIdentifiers \{(.*?)\}', dec, re.S).group(1).replace('= 0', '').replace(',', ' ').split()
    joints = re.search(r'enum JointIdentifiers \{(.*?)\}', dec, re.S).group(1).replace('= 0', '').replace(',', ' ').split()
    tr = rd(M + d + '/generated/transforms.h')
    cls = {}
    for c in ('Motion', 'Force', 'Homogeneous'):
        b = re.search(r'class %sTransforms \{(.*?)\n\}; //class' % c, tr, re.S).group(1)
        cls[c] = re.findall(r'^\s+Type_(\w+) \1;', b, re.M)
    assert cls['Motion'] == cls['Force'] == cls['Homogeneous'], d
    jac = re.findall(r'^\s+Type_(\w+) \1;', rd(M + d + '/generated/jacobians.h'), re.M)
    ip = rd(M + d + '/generated/inertia_properties.h')
    il = re.findall(r'& getTensor_(\w+)\(\) const;', ip)
    return dict(dir=d, links=links, joints=joints, X=cls['Motion'], J=jac, inert=il)
def header():
    o = ['// written by tools/mkrobots.py: member names of the generated robot classes', '#pragma once']
    for k, (d, ns, fl) in enumerate(BOTS):
        n = names(d)
        o.append('#if VP_BOT == %d' % k)
        for h in ('declarations', 'transforms', 'jacobians', 'inertia_properties', 'inverse_dynamics', 'forward_dynamics', 'jsim'):
            o.append('#include <ct/models/%s/generated/%s.h>' % (d, h))
        o.append('#include <ct/models/%s/generated/miscellaneous.cpp>' % d)
        o.append('namespace R = iit::%s;' % ns)
        o.append('#define VP_FLOATING %d' % fl)
        o.append('#define VP_X(F) ' + ' '.join('F(%d, %s)' % (i, x) for i, x in enumerate(n['X'])))
        o.append('#define VP_J(F) ' + ' '.join('F(%d, %s)' % (i, x) for i, x in enumerate(n['J'])))
        lk = n['links'] if fl else n['links'][1:]
        low = {x.upper(): x for x in n['inert']}
        o.append('#define VP_L(F) ' + ' '.join('F(%d, %s, %s)' % (i, low[l], l) for i, l in enumerate(lk)))
        o.append('#endif')
    open(V + '/harness/robots_gen.h', 'w').write('\n'.join(o) + '\n')
DUMP = r'''
#define VP_BOT %d
#include <iostream>
#include <ct/iit/rbd/rbd.h>
#include "robots_gen.h"
using namespace R;
template <class T, class Q> auto upd(T& x, const Q& q) -> Eigen::MatrixXd { return x(q); }
int main() {
  HomogeneousTransforms h; Jacobians J; dyn::InertiaProperties ip;
  std::cout.precision(17);
  JointState q; srand(1);
  for (int k = 0; k < 6; k++) {
    for (int i = 0; i < jointsCount; i++) q(i) = k == 0 ? 0 : (rand() %% 1000) / 300.0;
    std::cout << "Q"; for (int i = 0; i < jointsCount; i++) std::cout << " " << q(i); std::cout << "\n";
#define F(i, n) { Eigen::Matrix4d m = h.n(q); std::cout << "X %d"#i; for (int a = 0; a < 16; a++) std::cout << " " << m(a / 4, a %% 4); std::cout << "\n"; }
    VP_X(F)
#undef F
#define F(i, n) { std::cout << "J "#i << " " << J.n(q).cols() << "\n"; }
    VP_J(F)
#undef F
  }
#define F(i, n, L) { auto& T = ip.getTensor_##n(); auto c = ip.getCOM_##n(); std::cout << "I "#i << " " << ip.getMass_##n() << " " << c(0) << " " << c(1) << " " << c(2); \
   for (int a = 0; a < 3; a++) for (int b = a; b < 3; b++) std::cout << " " << T(a, b); std::cout << "\n"; }
    VP_L(F)
  std::cout << "T " << ip.getTotalMass() << "\n";
}
'''
def dump(k):
    os.makedirs('/tmp/rb', exist_ok=True)
    open('/tmp/rb/d%d.cpp' % k, 'w').write((DUMP % (k, 0)).replace('X 0"#i', 'X "#i'))
    subprocess.check_call('g++ -std=c++14 -O0 -w -DEIGEN_NO_DEBUG -I%s/harness -I%s/ct_models/include -I%s/ct_rbd/include -I%s/ct_rbd/include/ct -I/usr/include/eigen3 /tmp/rb/d%d.cpp -o /tmp/rb/d%d' % (V, REPO, REPO, REPO, k, k), shell=True)
    qs, I, J, T = [], [], [], 0
    for l in subprocess.check_output('/tmp/rb/d%d' % k, shell=True, text=True).splitlines():
        w = l.split()
        if w[0] == 'Q': qs.append((np.array(list(map(float, w[1:]))), []))
        if w[0] == 'X': qs[-1][1].append(np.array(list(map(float, w[2:]))).reshape(4, 4))
        if w[0] == 'J' and len(qs) == 1: J.append(int(w[2]))
        if w[0] == 'I': I.append(list(map(float, w[2:])))
        if w[0] == 'T': T = float(w[1])
    return qs, I, J, T
def Rz(a):
    m = np.eye(4); m[:2, :2] = [[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]]; return m
def kin(d, ns):
    """joint frames from the kindsl file: joint -> (translation, rotation), child link -> (parent, joint)"""
    p = M + d + '/model/%s.kindsl' % ns
    if not os.path.exists(p): return None
    t = re.sub(r'PI', 'np.pi', rd(p))
    J = {}
    for j, b in re.findall(r'r_joint (\w+) \{(.*?)\n\}', t, re.S):
        tr = eval(re.search(r'translation\s*=\s*(\(.*?\))', b).group(1)); ro = eval(re.search(r'rotation\s*=\s*(\(.*?\))', b).group(1))
        J[j] = (tr, ro)
    return J
def rot(r):
    cx, sx, cy, sy, cz, sz = [f(a) for a in r for f in (np.cos, np.sin)]
    X = np.array([[1, 0, 0], [0, cx, -sx], [0, sx, cx]]); Y = np.array([[cy, 0, sy], [0, 1, 0], [-sy, 0, cy]]); Z = np.array([[cz, -sz, 0], [sz, cz, 0], [0, 0, 1]])
    return X @ Y @ Z
def tup(v): return '<<' + ', '.join(str(x) for x in v) + '>>'
def ints(v, s):
    o = []
    for x in v:
        y = round(float(x) * s); assert abs(y - x * s) < 1e-5, (x, s); o.append(y)
    return o
def rat(m): return ints(m[:3, :3].reshape(-1), 1), ints(m[:3, 3], 10**7)
def tla():
    out = []
    for k, (d, ns, fl) in enumerate(BOTS):
        n = names(d); qs, I, Jc, T = dump(k)
        base = [x.split('_X_')[0] for x in n['X'] if '_X_' in x]
        links = n['links']
        fr = lambda l: next(f for f in sorted({g for x in n['X'] for g in x.split('_X_')}) if f.upper() == 'FR_' + l)
        B = fr(links[0]); xi = {x: i for i, x in enumerate(n['X'])}
        W = lambda f, s: np.eye(4) if f == B else (s[1][xi[B + '_X_' + f]] if B + '_X_' + f in xi else np.linalg.inv(s[1][xi[f + '_X_' + B]]))
        lf = [fr(l) for l in links]
        # parent of link i: the link for which inv(W_p) W_i Rz(-q) is constant
        par, JR = [], []
        for i in range(1, len(links)):
            for p in range(0, i):
                C = [np.linalg.inv(W(lf[p], s)) @ W(lf[i], s) @ Rz(-s[0][i - 1]) for s in qs]
                if all(np.allclose(c, C[0], atol=1e-9) for c in C): break
            else: raise Exception('no parent')
            par.append(p); JR.append(rat(C[0]))
        kd = kin(d, ns)
        if kd:
            kk = {a.upper(): b for a, b in kd.items()}
            for i, j in enumerate(n['joints']):
                t, r = kk[j]; assert np.allclose(t, np.array(JR[i][1]) / 1e7, atol=1e-9), (d, j, t, JR[i])
                if not np.allclose(rot(r), np.array(JR[i][0]).reshape(3, 3), atol=1e-9): print('ROT differs', d, j, r, rot(r).round(3).tolist(), JR[i])
        frames = list(lf); FR = [(i, [1, 0, 0, 0, 1, 0, 0, 0, 1], [0, 0, 0]) for i in range(len(lf))]
        for x in n['X']:
            for f in x.split('_X_'):
                if f in frames: continue
                for l in range(len(links)):
                    C = [np.linalg.inv(W(lf[l], s)) @ W(f, s) for s in qs]
                    if all(np.allclose(c, C[0], atol=1e-9) for c in C): break
                else: raise Exception('frame ' + f)
                frames.append(f); FR.append((l,) + rat(C[0]))
        X = [(frames.index(x.split('_X_')[0]) + 1, frames.index(x.split('_X_')[1]) + 1) for x in n['X']]
        J = [frames.index(x.split('_J_')[1]) + 1 for x in n['J']]
        path = lambda l: (path(par[l - 1]) + [l]) if l else []
        for f, c in zip(J, Jc):
            assert n['J'][0].split('_J_')[0] == B
            if len(path(FR[f - 1][0])) != c: print('JAC cols', d, frames[f - 1], c, path(FR[f - 1][0]))
        nd = lambda v: [int(round(x * 1e7)) for x in v]
        out.append('Bot%d ==   \\* %s' % (k + 1, d))
        out.append('  [nj |-> %d, fl |-> %d, par |-> %s, tm |-> %d,' % (len(par), fl, tup(par), round(T * 1e7)))
        out.append('   jr |-> <<%s>>,\n   jt |-> <<%s>>,' % (', '.join(tup(a) for a, b in JR), ', '.join(tup(b) for a, b in JR)))
        out.append('   fr |-> <<%s>>,' % ', '.join('<<%d, %s, %s>>' % (l, tup(a), tup(b)) for l, a, b in FR))
        out.append('   X |-> <<%s>>,\n   J |-> %s,' % (', '.join(tup(x) for x in X), tup(J)))
        out.append('   I |-> <<%s>>]' % ',\n          '.join(tup(nd(x)) for x in I))
        print(d, 'links', links, 'par', par, 'frames', len(frames), 'X', len(X), 'J', len(J))
    open(V + '/spec/Robots.tla', 'w').write('''------------------------------- MODULE Robots -------------------------------
(* The robots of ct_models as trees of bodies (written by tools/mkrobots.py).  nj joints, fl floating base, par parent link of link i
   (0: base), jr/jt joint frame in its parent (rotation, translation in 1e-7 m), fr frames <<link, rotation, translation>> (the links'
   own frames first), X the pairs of frames with a coordinate transform, J the frames with a Jacobian, I link inertia in 1e-7:
   mass, centre of mass, inertia tensor (upper triangle); tm total mass.                                                             *)
EXTENDS Integers, Sequences
''' + '\n'.join(out) + '\nBot == <<' + ', '.join('Bot%d' % (k + 1) for k in range(len(BOTS))) + '>>\n=============================================================================\n')
header()
tla()
