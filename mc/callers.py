"""C27: enumerates small caller programs over every intrinsic and runs them under every build of caller and library and every phase of the program's life."""
import os, sys, re, glob
from concurrent.futures import ThreadPoolExecutor
import spec
M = sys.modules.get('check') or sys.modules['__main__']

INTV = {0: lambda i, w: i + 1, 1: lambda i, w: (1 << w - 1) - 1 - (i % 3), 2: lambda i, w: -(1 << w - 1) + (i % 2),
        3: lambda i, w: (0x9e3779b97f4a7c15 * (i + 3)) & ((1 << w) - 1), 4: lambda i, w: -1 - i, 5: lambda i, w: (0, 1, -1, 1 << w - 2, 85, -86)[i % 6]}
FLV = {0: ['1.5', '-2.25', '3.75', '0.1'], 1: ['0.0', '-0.0', '1.0', '-1.0'], 2: ['INF', '-INF', '2.0', 'NAN'], 3: ['3.0e38', '1.0e-38', '-3.0e38', '1.0e-40'],
       4: ['0.5', '2147483648.0', '-2147483649.0', '4294967296.0'], 5: ['2.5', '-3.5', '0.49999997', '8388609.0']}
def lit(s, k, i):
    w = spec.sz(s)
    if s[0] == 'f':
        v = FLV[k][(i + i // 4) % 4]
        sg = '-' if v[0] == '-' else ''; b = v.lstrip('-')
        if b == 'INF': return sg + ('__builtin_inff()' if w == 32 else '__builtin_inf()')
        if b == 'NAN': return '__builtin_nanf("")' if w == 32 else '__builtin_nan("")'
        return v + ('f' if w == 32 else '')
    x = INTV[k](i, w) & ((1 << w) - 1)
    if s[0] == 's' and x >> (w - 1): x -= 1 << w
    if w == 64: return ('INT64_MIN' if x == -(1 << 63) else '%dLL' % x) if s[0] == 's' else '%dULL' % x
    return ('(-2147483647-1)' if x == -(1 << 31) else '%d' % x) if s[0] == 's' else '%du' % x

def foot(o):
    vs = [a for a in o.args if a.role == 'v']
    tot = vs[0].nl if vs else o.retinfo[1]
    return {'ld': tot, 'st': tot, 'dup': 1, 'ldl': o.mem[1], 'stl': o.mem[1]}[o.mem[0]]
def lanes_of(a):   # C expressions of the lanes of a vector argument after its name
    per = spec.lanes(a.s, a.q)
    return ['.val[%d]' % i if a.nvec == 1 else '.val[%d].val[%d]' % (i // per, i % per) for i in range(a.nl)]

class Prog:
    """One caller per intrinsic: a group of functions that call it and show what they see."""
    def __init__(self, o):
        self.o, self.body, self.calls, self.shapes = o, [], [], 0
        self.n = re.sub(r'\W', '_', o.name)
    def fn(self, code, params='void', args=''):
        k = len(self.body)
        self.body.append('NOINL void s%d_%s(%s) { %s }' % (k, self.n, params, code))
        return 's%d_%s' % (k, self.n)
    def run(self, code, params='void', loop=None):
        f = self.fn(code, params); self.shapes += 1
        self.calls.append('%s();' % f if loop is None else 'for (int k = %d; k <= %d; k++) %s(opaque(k));' % (loop[0], loop[1], f))

def call(o, names, imm):
    return 'F_%s(%s)' % (o.name, ', '.join(str(imm) if a.role == 'i' else names[j] for j, a in enumerate(o.args)))
def show(o, shape, idx, var='r'):
    s, L = o.retinfo
    return 'emit("%s", %s, &%s, sizeof %s, \'%s\', %d);' % (shape, idx, var, var, s[0], spec.sz(s) // 8)
def showmem(shape, idx, expr, n, s): return 'emit("%s", %s, %s, %d, \'%s\', %d);' % (shape, idx, expr, n * spec.sz(s) // 8, s[0], spec.sz(s) // 8)

def programs(o, deep=False):
    P = Prog(o)
    imm = o.imm
    imms = list(range(imm.lo, imm.hi + 1)) if imm else [0]
    ends = sorted({imms[0], imms[len(imms) // 2], imms[-1]})
    N = ['a', 'b', 'c', 'd', 'e']
    ptr = [(j, a) for j, a in enumerate(o.args) if a.role in 'pw']
    es = ptr[0][1].s if ptr else None
    et = spec.ety(es) if ptr else None
    ft = foot(o) if ptr else 0
    store = o.ret is None
    k = lambda a: "'%s', %d" % (a.s[0], spec.sz(a.s) // 8)
    def literal(set_, const):
        d = []; set_, mul = set_ % 6, 1 + set_ // 6
        for j, a in enumerate(o.args):
            if a.role == 'v': d.append('%s%s %s = {%s};' % (const, a.ctype, N[j], ', '.join(lit(a.s, (set_ + j * mul) % 6, i) for i in range(a.nl))))
            elif a.role == 's': d.append('%s%s %s = %s;' % (const, a.ctype, N[j], lit(a.s, (set_ + j * mul) % 6, 1)))
            elif a.role == 'p': d.append('%s%s m[%d] = {%s}; %s const* %s = m;' % (const, et, ft, ', '.join(lit(a.s, set_, i) for i in range(ft)), et, N[j]))
            elif a.role == 'w': d.append('%s m[%d] = {%s}; %s* %s = m + 1;' % (et, ft + 2, ', '.join(lit(a.s, (set_ + 3) % 6, i) for i in range(ft + 2)), et, N[j]))
        return ' '.join(d)
    def result(shape, idx, c):
        return '%s; %s' % (c, showmem(shape, idx, 'm', ft + 2, es)) if store else '{ %s r = %s; %s }' % (o.rctype, c, show(o, shape, idx))
    def runtime(names, seed=0, skip=()):   # operands from opaque memory
        d = []
        for j, a in enumerate(o.args):
            if j in skip: continue
            if a.role in 'v': d.append('%s %s = *(%s*)src(%s, %d);' % (a.ctype, names[j], a.ctype, k(a), seed + j))
            elif a.role == 's': d.append('%s %s = *(%s*)src(%s, %d);' % (a.ctype, names[j], a.ctype, k(a), seed + j))
            elif a.role in 'pw': d.append('%s* m = (%s*)src(%s, %d); %s* %s = m + 1;' % (et, et, k(a), seed + j, et, names[j]))
        return ' '.join(d)
    # A: constant operands
    for st in range(36 if deep or (not ptr and any(a.role in 'vs' and a.s[0] == 'f' for a in o.args)) else 6):   # floating point: all combinations, a compiler folds them with arithmetic of its own
        P.run('%s %s' % (literal(st, 'const '), ' '.join('{ %s }' % result('A%d' % st, n, call(o, N, n)) if not (store and len(imms) > 1) else '{ %s %s }' % (literal(st, ''), result('A%d' % st, n, call(o, N, n))) for n in (imms if st == 0 or deep else ends)))
              if not (store and len(imms) > 1) else ' '.join('{ %s %s }' % (literal(st, ''), result('A%d' % st, n, call(o, N, n))) for n in (imms if st == 0 or deep else ends)))
    # B: run-time operands, every permitted immediate as a literal; vectors filled lane by lane, the result read lane by lane
    for n in imms:
        d = []
        for j, a in enumerate(o.args):
            if a.role == 'v': d.append('%s %s; { const %s* s = (const %s*)src(%s, %d); %s }' % (a.ctype, N[j], spec.ety(a.s), spec.ety(a.s), k(a), j, ' '.join('%s%s = s[%d];' % (N[j], l, i) for i, l in enumerate(lanes_of(a)))))
        rest = runtime(N, skip=[j for j, a in enumerate(o.args) if a.role == 'v'])
        if store: P.run('%s %s %s' % (' '.join(d), rest, result('B', n, call(o, N, n))))
        else:
            s, L = o.retinfo
            if o.ret[0] == 'scalar': g = '%s q[1]; q[0] = r;' % spec.ety(s)
            else:
                nv = o.ret[3] if len(o.ret) > 3 else 1
                g = '%s q[%d]; %s' % (spec.ety(s), L, ' '.join('q[%d] = r%s;' % (i, '.val[%d]' % i if nv == 1 else '.val[%d].val[%d]' % (i // (L // nv), i % (L // nv))) for i in range(L)))
            P.run('%s %s %s r = %s; %s %s' % (' '.join(d), rest, o.rctype, call(o, N, n), g, showmem('B', n, 'q', L, s)))
    # V: a lane of an operand in memory written before and after the call
    for j, a in enumerate(o.args):
        if a.role != 'v' or store: continue
        e = spec.ety(a.s)
        P.run('%s %s* w = (%s*)src(%s, 5); %s* z = (%s*)w; const %s v1 = *(%s*)src(%s, 7), v2 = *(%s*)src(%s, 8); z[k] = v1; %s r = %s; z[k] = v2; %s' % (
            runtime(N, skip=[j]), a.ctype, a.ctype, k(a), e, e, e, e, k(a), e, k(a), o.rctype, call(o, [('*w' if i == j else N[i]) for i in range(len(o.args))], imms[-1]), show(o, 'V%d' % j, 'k')), 'int k', (0, a.nl - 1))
    # F: every argument is evaluated exactly once; operands under names a macro might use itself
    for names in (['r', 'i', 'n', 'ptr', 'k'], ['ret', 'tmp', 'val', 'v', 'x']):
        ns = ['(cnt++, %s)' % names[j] for j in range(len(o.args))]
        c = call(o, ns, imms[0])
        mm = 'm' not in names
        P.run('%s int cnt = 0; %s emit("F", 0, &cnt, sizeof cnt, \'s\', 4);' % (runtime(names), '%s; %s' % (c, showmem('F', 1, 'm', ft + 2, es)) if store else '%s out_ = %s; %s' % (o.rctype, c, show(o, 'F', 1, 'out_'))))
    # L: loops: mapping arrays in place and into another array, and accumulation
    vec = [(j, a) for j, a in enumerate(o.args) if a.role == 'v']
    if vec and not ptr and o.ret and o.ret[0] != 'scalar':
        j, a = vec[0]
        same = o.rctype == a.ctype
        base = '%s %s* w = (%s*)src(%s, 4);' % (runtime(N, skip=[j]), a.ctype, a.ctype, k(a))
        nm = [('w[q]' if i == j else N[i]) for i in range(len(o.args))]
        P.run('%s %s z[4]; for (int q = 0; q < 4; q++) z[q] = %s; %s' % (base, o.rctype, call(o, nm, imms[0]), show(o, 'L', 0, 'z')))
        if same:
            P.run('%s %s* z = (%s*)launder(w); for (int q = 0; q < 4; q++) z[q] = %s; for (int q = 0; q < 4; q++) { %s r = w[q]; %s }' % (base, o.rctype, o.rctype, call(o, nm, imms[-1]), o.rctype, show(o, 'L', '1 + q')))
            P.run('%s %s acc = w[0]; for (int q = 1; q < 6; q++) { acc = %s; %s }' % (base, o.rctype, call(o, [('acc' if i == j else N[i]) for i in range(len(o.args))], imms[0]), show(o, 'L', '5 + q', 'acc')))
            for j2, a2 in vec[1:]:
                if a2.ctype == a.ctype: P.run('%s for (int q = 0; q < 4; q++) w[q + 1] = %s; %s' % (base, call(o, [('w[q]' if i == j else 'w[q + 2]' if i == j2 else N[i]) for i in range(len(o.args))], imms[0]), 'for (int q = 0; q < 7; q++) { %s r = w[q]; %s }' % (o.rctype, show(o, 'L', '20 + q'))))
    # memory: what the program stores before and after the call, what it reads before and after
    if ptr:
        j = ptr[0][0]
        for q, tag in (('(%s*)launder(p)' % et, 'X'), ('p', 'Y')):
            pre = '%s %s* p = m + 1; %s* q = %s; const %s v1 = *(%s*)src(%s, 9), v2 = *(%s*)src(%s, 10);' % (runtime(N), et, et, q, et, et, k(ptr[0][1]), et, k(ptr[0][1]))
            nm = lambda x: [(x if i == j else N[i]) for i in range(len(o.args))]
            for n in ends:
                c = call(o, nm('q'), n)
                if not store:
                    P.run('%s p[k] = v1; %s r = %s; p[k] = v2; %s' % (pre, o.rctype, c, show(o, 'M%s%d' % (tag, n), 'k')), 'int k', (-1, ft))
                    P.run('%s %s r = %s; p[k] = v1; %s r2 = %s; %s %s' % (pre, o.rctype, c, o.rctype, c, show(o, 'N%s%d' % (tag, n), 'k'), show(o, 'O%s%d' % (tag, n), 'k', 'r2')), 'int k', (-1, ft))
                else:
                    P.run('%s %s x[3]; x[0] = p[k]; %s; x[1] = p[k]; p[k] = v1; %s; x[2] = p[k]; %s' % (pre, et, c, c, showmem('M%s%d' % (tag, n), 'k', 'x', 3, es)), 'int k', (-1, ft))
                    P.run('%s p[k] = v1; %s; %s' % (pre, c, showmem('N%s%d' % (tag, n), 'k', 'm', ft + 2, es)), 'int k', (-1, ft))
    return P

def pairs(ld, st):
    """a load, a store at every relative offset, the load again; and the copying loop"""
    es = [a for a in ld.args if a.role in 'pw'][0].s
    et = spec.ety(es); fl, fs = foot(ld), foot(st)
    va = [(i, a) for i, a in enumerate(st.args) if a.role == 'v'][0]
    kk = "'%s', %d" % (es[0], spec.sz(es) // 8)
    L = lambda p: call(ld, [p if a.role == 'p' else 'u' for a in ld.args], ld.imm.hi if ld.imm else 0)
    S = lambda p, v: call(st, [p if a.role == 'w' else v for a in st.args], st.imm.hi if st.imm else 0)
    lv = [a for a in ld.args if a.role == 'v']
    u = '%s u = *(%s*)src(%s, 11);' % (lv[0].ctype, lv[0].ctype, kk) if lv else ''
    P = Prog(ld); P.n = '%s__%s' % (ld.name, st.name)
    P.run('%s* p = (%s*)src(%s, 1); %s* q = p + k; %s v = *(%s*)src(%s, 2); %s %s r = %s; %s; %s r2 = %s; %s %s' % (et, et, kk, et, va[1].ctype, va[1].ctype, kk, u, ld.rctype, L('p'), S('q', 'v'), ld.rctype, L('p'), show(ld, 'P', 'k'), show(ld, 'Q', 'k', 'r2')), 'int k', (-fs, fl))
    if ld.rctype == va[1].ctype:
        P.run('%s* p = (%s*)src(%s, 3); %s* q = p + k; %s for (int i = 0; i < 3; i++) %s; %s' % (et, et, kk, et, u, S('q + i * %d' % fs, L('p + i * %d' % fl)), showmem('R', 'k', 'p - %d' % (min(fs + 1, 24)), min(5 * fs, 256 // (spec.sz(es) // 8)), es)), 'int k', (-min(fs, 24), min(fs, 24)))
    return P

def build_sources(w, ops, nsh, deep=False):
    """writes the shards; returns (per shard: path, entry names), number of snippets"""
    units = [(o.name, programs(o, deep), [o]) for o in ops]
    lds, sts = [o for o in ops if o.mem and o.ret], [o for o in ops if o.mem and not o.ret]
    e = lambda o: [a for a in o.args if a.role in 'pw'][0].s
    for l in lds:
        for s in sts:
            if e(l) == e(s): units.append(('%s+%s' % (l.name, s.name), pairs(l, s), [l, s]))
    shards, total = [], 0
    for sh in range(nsh):
        part = units[sh::nsh]
        used = {}
        for _, _, os_ in part:
            for o in os_: used[o.name] = o
        t = ['#include "neon_sim.h"', '#include "callers_rt.h"']
        for o in used.values():
            t.append('#ifdef OPAQUE\nstatic %s (*F_%s)(%s);\n#else\n#define F_%s %s\n#endif' % (o.rctype, o.name, ', '.join(a.ctype for a in o.args), o.name, o.name))
        ent = []
        for name, P, _ in part:
            t += P.body
            t.append('static void e_%s(void) { %s }' % (P.n, ' '.join(P.calls))); ent.append(('"%s"' % name, 0, 'e_' + P.n)); total += P.shapes
        for o in [u[2][0] for u in part if '+' not in u[0]]:   # immediates outside the permitted range, as literals
            if not o.imm: continue
            for n in (o.imm.lo - 1, o.imm.hi + 1):
                P = Prog(o); P.n += '_inv%d' % (n > 0)
                N = ['a', 'b', 'c', 'd', 'e']; d = []
                for j, a in enumerate(o.args):
                    kk = "'%s', %d" % (a.s[0], spec.sz(a.s) // 8) if a.role != 'i' else ''
                    if a.role in 'vs': d.append('%s %s = *(%s*)src(%s, %d);' % (a.ctype, N[j], a.ctype, kk, j))
                    elif a.role in 'pw': d.append('%s %s = (%s)src(%s, %d);' % (a.ctype, N[j], a.ctype, kk, j))
                P.run('%s %s' % (' '.join(d), call(o, N, '(%d)' % n) + ';' if not o.ret else '%s r = %s; %s' % (o.rctype, call(o, N, '(%d)' % n), show(o, 'E', 0))))
                t += ['#ifndef NO_INVALID'] + P.body + ['static void e_%s(void) { %s }' % (P.n, ' '.join(P.calls)), '#else', 'static void e_%s(void) { }' % P.n, '#endif']; ent.append(('"%s %d"' % (o.name, n), 1, 'e_' + P.n)); total += 1
        t.append('#ifdef __cplusplus\nextern "C" {\n#endif')
        t.append('void init_all(void) {\n#ifdef OPAQUE\n' + '\n'.join('F_%s = (%s (*)(%s))sym("%s");' % (o.name, o.rctype, ', '.join(a.ctype for a in o.args), o.name) for o in used.values()) + '\n#endif\n}')
        t.append('extern const struct entry entries[] = {%s};\nextern const int nentries = %d;' % (',\n'.join('{%s, %d, %s}' % x for x in ent), len(ent)) if False else
                 'const struct entry entries[] = {%s};\nconst int nentries = %d;' % (',\n'.join('{%s, %d, %s}' % x for x in ent), len(ent)))
        t.append('#ifdef __cplusplus\n}\n#endif')
        p = w.path('callers_%d.inc' % sh)
        open(p, 'w').write('\n'.join(t) + '\n')
        open(w.path('callers_%d.c' % sh), 'w').write('#include "callers_%d.inc"\n' % sh); open(w.path('callers_%d.cpp' % sh), 'w').write('#include "callers_%d.inc"\n' % sh)
        shards.append((p, [x[0].strip('"') for x in ent]))
    return shards, total

# name, library (cc, cxx, flags), caller compiler, language, flags, link flags, phases
CONFIGS = [('gxx_O2', ('gcc', 'g++', '-O2'), 'g++', 'cpp', '-std=c++11 -O2', '', ('main', 'early', 'resumed', 'late')),
           ('gcc_c_O3', ('gcc', 'g++', '-O2'), 'gcc', 'c', '-std=c99 -O3 -DNDEBUG', '', ('main',)),
           ('gxx_lto_O3', ('gcc', 'g++', '-O3 -flto'), 'g++', 'cpp', '-std=c++17 -O3 -flto', '-O3 -flto=1 -flto-partition=none', ('main', 'early')),
           ('gcc_c_lto_O2', ('gcc', 'g++', '-O2 -flto'), 'gcc', 'c', '-std=gnu11 -O2 -flto -funsigned-char', '-O2 -flto=1', ('main',)),
           ('clang_c_Os', ('clang', 'clang++', '-O2'), 'clang', 'c', '-std=c99 -Os -DNDEBUG', '', ('main',)),
           ('clangxx_lto_O2', ('clang', 'clang++', '-O2 -flto'), 'clang++', 'cpp', '-std=c++20 -O2 -flto', '-O2 -flto -fuse-ld=lld', ('main', 'late'))]
MORE = [('gcc_c_O1', ('gcc', 'g++', '-O0'), 'gcc', 'c', '-std=gnu17 -O1 -fwrapv', '', ('main', 'early', 'late')),
        ('gxx_lto_Os', ('gcc', 'g++', '-Os -flto'), 'g++', 'cpp', '-std=c++20 -Os -flto', '-Os -flto=1', ('main', 'late')),
        ('gxx_lto_avx2', ('gcc', 'g++', '-O3 -flto -mavx2 -mno-fma'), 'g++', 'cpp', '-std=c++17 -O3 -flto -mavx2 -mno-fma', '-O3 -flto=1 -mavx2 -mno-fma', ('main',)),
        ('clang_c_lto_O3', ('clang', 'clang++', '-O3 -flto'), 'clang', 'c', '-std=gnu11 -O3 -flto', '-O3 -flto -fuse-ld=lld', ('main', 'early')),
        ('clangxx_Os', ('gcc', 'g++', '-O3'), 'clang++', 'cpp', '-std=c++14 -Os -DNDEBUG', '', ('main', 'early', 'late')),
        ('clangxx_thinlto_avx2', ('clang', 'clang++', '-O2 -flto=thin -mavx2 -ffp-contract=off'), 'clang++', 'cpp', '-std=c++17 -O2 -flto=thin -mavx2 -ffp-contract=off', '-O2 -flto=thin -fuse-ld=lld', ('main', 'early', 'late'))]
NSH = 8

def objects(w, name, cc, cxx, flags):
    w.lib(name, cc, cxx, flags, link=False)
    return sorted(glob.glob(os.path.join(w.path(name), '**', '*.o'), recursive=True))

def parse(text):
    d, cur = {}, None
    for l in text.splitlines():
        if l.startswith('> '): cur = l[2:]; d[cur] = []
        elif l.startswith('! '):
            n, how = re.match(r'! (.*) ((?:signal|exit) \d+)$', l).groups(); d.setdefault(n, []).append('ends with ' + how)
        elif not l.startswith('< ') and cur is not None: d[cur].append(l)
    return d

def run_callers(c, only=None):
    w = c.w
    inc = ['-I' + M.REPO, '-I' + M.MC, '-I' + w.dir, '-w']
    shards, snippets = build_sources(w, spec.OPS, NSH, c.t == 2)
    rt = w.path('callers_rt.o')
    r = M.sh(['gcc', '-O1', '-c', os.path.join(M.MC, 'callers_rt.c'), '-o', rt, '-I' + M.MC])
    if r.returncode: raise M.BuildError(r.stdout)
    configs = [x for x in CONFIGS + (MORE if c.t == 2 else []) if only in (None, x[0])]
    skipped, libs = [], {}
    def lib(l):
        try: return objects(w, 'lib_' + re.sub(r'\W', '_', ' '.join(l)), *l)
        except M.LibBuildError:
            if '-flto' in l[2]: return None
            raise
    keys = sorted({x[1] for x in configs})
    res = M.parallel(lambda: w.lib('ref'), *[(lambda l=l: lib(l)) for l in keys])
    ref, libs = res[0], dict(zip(keys, res[1:]))
    def compile_(cfg, sh, cc, lang, flags, link, objs, tag):
        exe = w.path('caller_%s_%d' % (tag, sh))
        src, o = w.path('callers_%d.%s' % (sh, lang)), exe + '.o'
        fl = flags.split()
        r = M.sh([cc, '-c', src, '-o', o] + fl + inc)
        if r.returncode:                                   # a library that rejects bad immediates at compile time
            r2 = M.sh([cc, '-c', src, '-o', o, '-DNO_INVALID'] + fl + inc)
            if r2.returncode: return None, 'compile', r2.stdout
        r = M.sh([cc, '-o', exe, o, rt] + objs + link.split() + ['-lstdc++', '-lm', '-ldl', '-pthread'])
        return (None, 'link', r.stdout) if r.returncode else (exe, None, r.stdout)
    def base(sh):
        exe, bad, msg = compile_(None, sh, 'g++', 'cpp', '-std=c++11 -O0 -DOPAQUE', '', [], 'base')
        if not exe: raise M.BuildError('caller base: ' + msg[:2000])
        r = M.subprocess.run([exe], env=dict(os.environ, CALLER_SO=ref, CALLER_PHASE='main'), stdout=-1, stderr=-1, text=True)
        return parse(r.stdout)
    def one(cfg, sh):
        name, l, cc, lang, flags, link, phases = cfg
        if libs[l] is None: return cfg, sh, 'skip', None
        exe, bad, msg = compile_(cfg, sh, cc, lang, flags, link, libs[l], name)
        if not exe: return cfg, sh, bad, msg
        out = {}
        for p in phases:
            r = M.subprocess.run([exe], env=dict(os.environ, CALLER_PHASE=p), stdout=-1, stderr=-1, text=True)
            out[p] = parse(r.stdout)
        return cfg, sh, None, out
    with ThreadPoolExecutor(8) as ex:
        fb = [ex.submit(base, s) for s in range(NSH)]
        fo = [ex.submit(one, x, s) for x in configs for s in range(NSH)]
        bases = [f.result() for f in fb]; outs = [f.result() for f in fo]
    states = lines = runs = 0; seen = set(); distinct = set()
    def bad(op, shape, what, cfg, phase='main'):
        if (op, shape[:1]) in seen: return
        seen.add((op, shape[:1]))
        c.add(harness='callers', op=op, kind='caller', config=cfg[0], phase=phase, what='%s %s with the library built %s%s: %s' % (cfg[2], cfg[4], ' '.join(cfg[1][1:]), '' if phase == 'main' else ', ' + {'early': 'called before main', 'resumed': 'called in main after calls before main', 'late': 'called during exit after calls in main'}[phase], what))
    for cfg, sh, err, out in outs:
        if err == 'skip': skipped.append(cfg[0]); continue
        if err:
            und = sorted(set(re.findall(r"undefined (?:reference to [`']|symbol: )(\w+)", out)))
            known = [n for n in und if n in spec.BYNAME]
            errs = re.findall(r'error: (.*)', out)
            for n in known: bad(n, 'link', 'does not link', cfg)
            if not known: bad('neon_sim', err, 'a caller program does not %s: %s' % (err, (errs or [out[-300:]])[0]), cfg)
            continue
        want = bases[sh]
        for phase, got in out.items():
            runs += 1
            if not got: bad('neon_sim', 'run', 'the caller program of %s shows nothing' % ', '.join(x for x in shards[sh][1][:3]), cfg, phase); continue
            for name in shards[sh][1]:
                g, b = got.get(name, ['not run']), want.get(name, ['not run'])
                if ' ' in name and not g: continue               # rejected at compile time
                states += 1; lines += len(b)
                distinct.update((name.split(' ')[0].split('+')[0], x) for x in b[:4])
                if g != b:
                    gd = [x for x in zip(g + ['nothing'] * len(b), b + ['nothing'] * len(g)) if x[0] != x[1]][0]
                    bad(name.split(' ')[0], gd[1], 'program %s %s shows %s instead of %s' % (name, gd[1].split(' ')[0], gd[0].split(' ', 1)[-1], gd[1].split(' ', 1)[-1]), cfg, phase)
                elif any(x.startswith('ends with') for x in b) and ' ' not in name: bad(name.split(' ')[0], 'ends', b[-1], cfg, phase)
    c.cov.update(states=states, transitions=lines, traces_validated_against_impl=runs, operations=len(spec.OPS), caller_programs=snippets, configurations=['%s %s, library %s' % (x[2], x[4], ' '.join(x[1][1:])) for x in configs], configurations_not_built=sorted(set(skipped)), distinct_results_at_least=len(distinct),
        explanation='states: (caller program group, build of caller and library, phase of the program\'s life) executed; transitions: results shown by a program and compared with the same program compiled without optimisation against opaque calls; traces: program runs.',
        samples=[{'program': 'p[k] = v1; r = vld2q_u16(q); p[k] = v2;  with q == p unknown to the compiler, every k'}, {'program': 'r = vld1_u8(p); vst1_u8(p + s, v); r2 = vld1_u8(p);  every s'}, {'program': 'vqshrn_n_s16 with constant operands, called before main'}])
