#!/usr/bin/env python3
"""Extracts NAME|RET|ARG,ARG.. for every intrinsic of clang's arm_neon.h that neon_sim.h mentions; writes mc/acle.txt (committed)."""
import re, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
h = open('/usr/lib/llvm-18/lib/clang/18/include/arm_neon.h').read()
decl = set(re.findall(r'\b(v[a-z0-9]+(?:_[a-z0-9]+)+)\s*\(', open('/repo/neon_sim.h').read()))
norm = lambda t: re.sub(r'\s+', ' ', t.replace('const', ' ').strip())
out = {}
for m in re.finditer(r'^__ai (?:__attribute__\(\(\w+\([^)]*\)\)\) )?(\w+) (v\w+)\(([^)]*)\) \{', h, re.M):
    if m.group(2) not in decl: continue
    args = [norm(re.sub(r'\s*__p\d+$', '', a.strip())) for a in m.group(3).split(',')] if m.group(3).strip() not in ('', 'void') else []
    out.setdefault(m.group(2), '%s|%s' % (m.group(1), ','.join(args)))
for m in re.finditer(r'^#define (v\w+)\(([^)]*)\) __extension__ \(\{ \\\n(.*?)\}\)\n', h, re.M | re.S):
    n, body = m.group(1), m.group(3)
    if n not in decl or n in out: continue
    k = len(m.group(2).split(','))
    r = re.search(r'^\s*(\w+) __ret(?:_\d+)?;', body, re.M)
    el = {'s': 'int', 'u': 'uint', 'f': 'float', 'p': 'poly'}
    suf = re.search(r'_([sufp])(\d+)$', n)
    args = []
    for i in range(k):
        t = re.search(r'^\s*(\w+) __s%d(?:_\d+)? = __p%d;' % (i, i), body, re.M)
        if t: args.append(t.group(1))
        elif i == 0 and n.startswith(('vld', 'vst')) and suf:
            e = '%s%s_t' % (el[suf.group(1)], suf.group(2))
            args.append(('const ' if n.startswith('vld') else '') + e + ' *')
        else: args.append('int')
    out[n] = '%s|%s' % (r.group(1) if r else 'void', ','.join(args))
EL = {'s': 'int', 'u': 'uint', 'f': 'float'}
for n, v in out.items():   # macros whose body does not show the argument types
    r, a = v.split('|')
    suf = re.search(r'_([suf])(\d+)$', n)
    if n.startswith('vcreate_'): out[n] = r + '|uint64_t'
    elif re.search(r'[a-z]_lane_[suf]\d+$', n) and not n.startswith(('vld', 'vst', 'vget', 'vset', 'vcopy')) and a.split(',')[0] == 'int':
        b, w = EL[suf.group(1)], int(suf.group(2))
        d = '%s%dx%d_t' % (b, w, 64 // w)                       # the vector a lane is taken from
        long = re.match(r'v(qd)?ml[as]l_lane', n)
        first = [] if n.startswith('vdup') else [d] if 'mull' in n else [r, d] if long else [r, r] if re.match(r'vml[as]q?_lane', n) else [r]
        out[n] = '%s|%s' % (r, ','.join(first + [d, 'int']))
open(V + '/mc/acle.txt', 'w').write(''.join('%s|%s\n' % (n, out[n]) for n in sorted(out)))
print(len(decl), 'declared,', len(out), 'with an ACLE signature;', 'without:', sorted(decl - set(out))[:20])
