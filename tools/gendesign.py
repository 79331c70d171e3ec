#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {l.split()[0]: l.split(None, 1)[1].strip() for l in open(os.path.join(root, 'tools', 'missed.txt')) if l.strip()}
rows = ['| bug | property | what it breaks | needs | caught by |', '|-----|----------|----------------|-------|-----------|']
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    c = m['property'] + (' (first missed: %s)' % MISSED[i] if i in MISSED else '')
    rows.append('| %s | %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'], m['needs'], c))
p = root + '/DESIGN.md'
t = open(p).read()
table = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
if 'SEEDTABLE' in t:
    t = t.replace('SEEDTABLE', table)
else:
    t = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: table, t, flags=re.S)
open(p, 'w').write(t)
