#!/usr/bin/env python3
"""Maintains seeded/<id>/ from the list in seeds_src.py: writes patch.diff, demo.sh, demo source and meta.json, confirms in a scratch
worktree that the change builds, passes the repository's tests and fails its demonstration, and reports which check catches it.
   mkseeds.py SCRATCH [ids...] [--nocheck]"""
import sys, os, re, json, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/tools'); sys.dont_write_bytecode = True
import seeds_src
RT = sys.argv[1]; ids = [a for a in sys.argv[2:] if not a.startswith('-')]; nocheck = '--nocheck' in sys.argv
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def build(d):
    return sh('CC=gcc CXX=g++ cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_C_FLAGS_RELWITHDEBINFO="-O2 -g" -DCMAKE_CXX_FLAGS_RELWITHDEBINFO="-O2 -g" -DNEON_SIM_BUILD_TEST=ON && ninja -C _build', cwd=d)
orig = {}
if os.path.exists('/tmp/orig_repo'):
    for f in ('neon_sim.cpp', 'neon_sim.h'): orig[f] = open('/tmp/orig_repo/' + f).read()
def body_re(fn): return re.compile(r'^[\w ]+\*? ?\b%s\([^)]*\)\s*\n\{\n.*?^\}\n' % fn, re.M | re.S)
DEMO = {'cpp': '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd); tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++11 -O1 -w -I. "$here/demo.cpp" -o "$tmp/demo" _build/libneon_sim.a -lm -pthread || exit 2
cd "$tmp" && timeout 120 ./demo
'''}
bad = 0
for s in seeds_src.SEEDS:
    if ids and s['id'] not in ids: continue
    sh('git checkout -q .', cwd=RT)
    msg = []
    for e in s['edits']:
        f = e.get('file', 'neon_sim.cpp'); p = os.path.join(RT, f); t = open(p).read()
        if 'func' in e:
            m = body_re(e['func']).search(t); assert m, e['func']
            if orig and m.group(0) not in orig[f]: msg.append('WARNING %s was changed by a fix' % e['func'])
            old = m.group(0); head = old[:old.index('{\n')]
            new = e.get('pre', '') + head + '{\n' + e['body'].strip('\n') + '\n}\n'
            t = t.replace(old, new, 1)
        else:
            assert t.count(e['old']) == 1, (s['id'], e['old'], t.count(e['old']))
            if orig and e['old'] not in orig[f]: msg.append('WARNING edit not in original lines')
            t = t.replace(e['old'], e['new'])
        open(p, 'w').write(t)
    d = os.path.join(V, 'seeded', s['id'])
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + '/patch.diff', 'w').write(sh('git diff', cwd=RT).stdout)
    open(d + '/demo.cpp', 'w').write(s['demo'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write(s.get('sh') or DEMO['cpp']); os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    b = build(RT)
    if b.returncode: print(s['id'], 'DOES NOT BUILD', b.stdout[-800:]); bad += 1; continue
    fails = []
    for n in sh('_build/test_neon_sim --list-tests', cwd=RT).stdout.split():
        r = sh('timeout 60 _build/test_neon_sim --filter=' + n, cwd=RT)
        if r.returncode: fails.append(n)
    d0 = sh('bash %s/demo.sh' % d, cwd='/repo'); d1 = sh('bash %s/demo.sh' % d, cwd=RT)
    ok = not fails and d0.returncode == 0 and d1.returncode != 0
    line = '%s %s tests:%s demo unpatched:%d patched:%d' % (s['id'], 'ok' if ok else 'BAD', fails or 'pass', d0.returncode, d1.returncode)
    if d0.returncode: line += ' ' + d0.stdout[-300:]
    bad += not ok
    if not nocheck:
        c = sh('python3 -B check.py %s' % s['property'], cwd=V, env=dict(os.environ, NEON_SIM_REPO=RT))
        nv = len(re.findall('^VIOLATION property=%s ' % s['property'], c.stdout, re.M))
        first = [l for l in c.stdout.splitlines() if l.startswith('# ')][:1]
        line += ' | check rc %d, %d violations %s' % (c.returncode, nv, (first[0][:160] if first else c.stdout[-200:]))
        if c.returncode != 1 or not nv: line += ' *** MISSED'
    print(line, *msg, flush=True)
sh('git checkout -q .', cwd=RT)
sys.exit(bad)
