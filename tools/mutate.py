#!/usr/bin/env python3
"""mutate.py PROP N SEED [FILE-SUBSTRING]: random single-line changes of the files a property is anchored in, run against its quick
check in a private copy; prints one line per change (killed / SURVIVED / build) - survivors are to be reviewed by hand."""
import json, os, random, re, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prop, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
sub = sys.argv[4] if len(sys.argv) > 4 else ''
rng = random.Random(seed * 1000003 + sum(map(ord, prop)))
W = '/tmp/mut/w_%s_%d' % (prop, seed)
shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
def sh(c): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
sh('git clone -q /repo %s/repo; cp /repo/ct_core/include/ct/core/templateDir.h %s/repo/ct_core/include/ct/core/' % (W, W))
sh('mkdir %s/verif; (cd %s && tar cf - --exclude=.work --exclude=.git --exclude=seeded --exclude=evidence .) | tar xf - -C %s/verif' % (W, V, W))
p = [json.loads(l) for l in open(V + '/properties.jsonl')]
p = [x for x in p if x['id'] == prop][0]
files = set()
for f in sum([[f] if not f.endswith('/') else [os.path.join(d, x)[6:] for d, _, xs in os.walk('/repo/' + f) for x in xs if x.endswith(('.h', '.hpp'))] for f in p['anchors']['files']], []):
    files.add(f)
    b, e = os.path.splitext(f)
    for c in (b[:-5] + e if b.endswith('-impl') else b + '-impl' + e,):
        if os.path.exists('/repo/' + c): files.add(c)
files = sorted(f for f in files if sub in f)
OPS = [(r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r'\+=', '-='), (r'-=', '+='), (r'\+=', '='), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r'==', '!='), (r'!=', '=='), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
       (r' \+ 1\b', ''), (r' - 1\b', ''), (r'\.transpose\(\)', ''), (r'\[i\]', '[0]'), (r'\[i\]', '[i - 1]'), (r'\[k\]', '[0]'), (r'\[i \+ 1\]', '[i]'), (r'\[k \+ 1\]', '[k]'), (r'\.back\(\)', '.front()'), (r'\.front\(\)', '.back()'), (r'&&', '||'), (r'\|\|', '&&'),
       (r'\bdt\b', '(2 * dt)'), (r'\bt\b(?=[,)])', '0'), (r'lb', 'ub'), (r'ub_', 'lb_'), (r'0\.5', '1.0'), (r'2\.0', '1.0'), (r'if \((.*)\)$', r'if (!(\1))'), (r'Intermediate', 'Terminal'), (r'Terminal', 'Intermediate'), (r'\(0\.0\)', '(1.0)'), (r'\bi = 0\b', 'i = 1'), (r'setZero', 'setOnes'), (r'\bstd::min\b', 'std::max'), (r'\bstd::max\b', 'std::min'), (r'K_', '(K_ - 1)'), (r'(\w+), (\w+)\)', r'\2, \1)'),
       (r'\barg\.(\w+?)_\b', r'decltype(\1_)()')]
SKIP = re.compile(r'^\s*(//|\*|/\*|#|template|typedef|using|namespace|class|struct|public|private|protected|EIGEN|std::cout|std::cerr|throw|assert|\}|\{|break|default|case|virtual|return;)|std::cout|std::cerr|runtime_error|matFile|static_assert')
def muts(path):
    out = []; L = open(W + '/repo/' + path).read().split('\n'); com = False
    for i, l in enumerate(L):
        if '/*' in l: com = True
        if com:
            if '*/' in l: com = False
            continue
        if SKIP.search(l) or not l.strip(): continue
        code = l.split('//')[0].rstrip()
        if re.match(r'^\s+[\w:\->.\[\]()<>, *+]+(\(.*\)|[+\-*]?= .*);$', code) and not re.match(r'^\s*(return|const|auto|\w[\w:<>, ]* \w+\b)', code): out.append((i, re.match(r'\s*', l).group() + ';'))
        for a, b in OPS:
            for m in re.finditer(a, code):
                r = code[:m.start()] + re.sub(a, b, m.group()) + code[m.end():]
                if r != code: out.append((i, r))
    return [(path, i, r) for i, r in out]
allm = [m for f in files for m in muts(f)]
# even over files: weight each line equally
byline = {}
for m in allm: byline.setdefault(m[:2], []).append(m)
keys = sorted(byline); rng.shuffle(keys)
print('%s: %d lines, %d changes' % (prop, len(keys), len(allm)), flush=True)
k = 0
for key in keys:
    if k >= n: break
    path, i, r = rng.choice(byline[key])
    f = W + '/repo/' + path; src = open(f).read(); L = src.split('\n'); old = L[i]; L[i] = r
    open(f, 'w').write('\n'.join(L))
    x = sh('cd %s/verif && VP_REPO=%s/repo VERIF_SEED=1 timeout 900 nice -n 15 bin/check.sh %s quick' % (W, W, prop))
    open(f, 'w').write(src)
    v = {0: 'SURVIVED', 1: 'killed'}.get(x.returncode, 'build' if 'does not compile' in x.stdout else 'other%d' % x.returncode)
    if v != 'build': k += 1
    print('%s %s %s:%d\n   - %s\n   + %s' % (v, prop, path.split('/ct/')[-1], i + 1, old.strip(), r.strip()), flush=True)
shutil.rmtree(W, ignore_errors=True)
