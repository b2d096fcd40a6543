#!/usr/bin/env python3
"""Rewrites the table of seeded changes at the end of DESIGN.md."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + '/DESIGN.md').read().split('\n| seed |')[0]
r = ['| seed | caught by | needs |', '|---|---|---|']
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m)); r.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['property'], d['needs'].replace('|', '/').replace('\n', ' ')))
open(V + '/DESIGN.md', 'w').write(s.rstrip('\n') + '\n\n' + '\n'.join(r) + '\n')
