#!/usr/bin/env python3
"""mkseed.py DEF.py : write seeded/<id>/ from a definition (SEEDS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], demo, args?)])."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seed_wt'
SH = '''#!/bin/bash
# exit 0: the property holds; nonzero: it does not (or the program no longer builds)
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -w -std=c++14 -O1 -ftemplate-depth=1000 %s -Ict_core/include -Ict_optcon/include -Ict_rbd/include -Ict_models/include -isystem /usr/include/eigen3 "$D/demo.cpp" -o "$T/demo" %s -lboost_filesystem -lboost_system -lpthread || exit 3
cd "$T" && timeout 100 ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, check=True, text=True, stdout=subprocess.PIPE, **k).stdout
ns = {}
exec(open(sys.argv[1]).read(), ns)
sh('rm -rf /tmp/seed_wt && git clone -q /repo /tmp/seed_wt')
for s in ns['SEEDS']:
    for f, old, new in s['edits']:
        p = os.path.join(W, f); t = open(p, newline='').read()
        assert t.count(old) == 1, (s['id'], f, t.count(old), old)
        open(p, 'w', newline='').write(t.replace(old, new))
    d = os.path.join(V, 'seeded', s['id']); os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'wb').write(subprocess.run('git -C %s diff' % W, shell=True, check=True, stdout=subprocess.PIPE).stdout)
    sh('git -C %s checkout -q -- .' % W)
    open(d + '/demo.cpp', 'w').write(s['demo'])
    open(d + '/demo.sh', 'w').write(SH % (s.get('defs', ''), s.get('libs', '')))
    os.chmod(d + '/demo.sh', 0o755)
    for n, t in s.get("extra", {}).items():
        os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True); open(os.path.join(d, n), "w").write(t)
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    print('wrote', s['id'])
sh('rm -rf /tmp/seed_wt')
