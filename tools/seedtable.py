#!/usr/bin/env python3
"""rewrite the table of planted changes at the end of DESIGN.md"""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + '/DESIGN.md'
s = open(p).read()
h = '| planted change | property | needs |\n|---|---|---|\n'
s = s[:s.index(h)] + h
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m))
    s += '| %s | %s | %s |\n' % (os.path.basename(os.path.dirname(m)), d['property'], d['needs'].replace('|', '/').replace('\n', ' '))
open(p, 'w').write(s)
