#!/usr/bin/env python3
"""Puts the lists of fixed defects and of planted bugs into DESIGN.md (between markers)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fixed = ''
for l in open(V + '/known_findings.txt'):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m:
        fixed += '| %s | %s | %s |\n' % m.groups()
fixed = '| property | commit | what failed |\n|---|---|---|\n' + fixed
seeds = '| planted bug | property | needs | caught by |\n|---|---|---|---|\n'
res = {}
p = V + '/tools/seed_results.json'
if os.path.exists(p):
    res = json.load(open(p))
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    seeds += '| %s | %s | %s | %s |\n' % (i, m['property'], m['needs'], res.get(i, m['property']))
t = open(V + '/DESIGN.md').read()
for k, s in (('FIXED', fixed), ('SEEDS', seeds)):
    t = re.sub(r'(<!-- %s -->\n).*?(<!-- /%s -->)' % (k, k), lambda m: m.group(1) + s + m.group(2), t, flags=re.S)
open(V + '/DESIGN.md', 'w').write(t)
