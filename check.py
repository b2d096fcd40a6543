#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--keep]     decide one property on /repo's working tree
   check.py --replay FILE                                 re-execute one recorded violation"""
import sys, os, json, time, subprocess, tempfile, shutil, glob, atexit, signal, re
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
MC = os.path.join(VERIF, 'mc')
REPO = os.environ.get('NEON_SIM_REPO', '/repo')
sys.path.insert(0, MC)
sys.dont_write_bytecode = True

VAL = ['x86-64, round to nearest, no flush-to-zero; NaN payloads and signs of NaN results are not compared',
       'operand pairs and triples of 32/64-bit lanes are covered on boundary-dense alphabets only (bounds in DESIGN.md); 8-bit operands completely, 16-bit pairs and 32-bit unary operands completely in the tier DESIGN.md names',
       'signatures are those of clang arm_neon.h (mc/acle.txt); the numeric reference is mc/ref.cpp and mc/gen.py, written from the Arm definitions']
ASSUME = {p: VAL for p in 'C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17'.split()}
ASSUME.update({p: VAL[1:2] + ['both sides of a law run the library: an error that affects both sides alike is left to C04-C17'] for p in ('C23', 'C24', 'C26')})
ASSUME.update({
 'C01': ['lane counts, element sizes and interleaving are those of the ACLE signature; a function that behaves differently only for content outside the enumerated contents is out of bounds'],
 'C03': ['accesses made by inlined compiler builtins of the uninstrumented build are seen through page protection only; footprints that depend on the contents only for the enumerated contents (DESIGN.md)'],
 'C18': ['immediates outside [-4200,4200] only at the aliases of small values modulo 2^8, 2^16 and 2^31'],
 'C19': ['hidden state lives in the library image, thread-local storage or its effects on results; state behind operands outside the call contexts is not reached'],
 'C20': ['up to three threads of one call each, at most two preemptions; races are judged by release/acquire happens-before, but every load returns the latest value: results that need a stale value are out of bounds'],
 'C25': ['one level of nesting; operands of the interrupted call from the call contexts; allocations through the C and C++ allocation functions or refused by resource limits; stack of 16 kB'],
 'C21': ['gcc and clang on x86-64; FMA contraction, -ffast-math and MSVC are outside the contract; undefined behaviour as modelled by UBSan plus differing results'],
 'C27': ['gcc and clang on x86-64 with the listed flags; programs of the grammar in mc/callers.py; NaN payloads are not compared'],
 'C22': ['ACLE signatures as extracted from clang arm_neon.h; substitutions of one argument at a time']})
ASSUME['C02'] = ASSUME['C01']
class BuildError(Exception): pass
class LibBuildError(BuildError): pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

class Work:
    def __init__(self):
        base = os.environ.get('TMPDIR', '/tmp')
        self.dir = tempfile.mkdtemp(prefix='neonsim_mc_', dir=base)
        self.pid = os.getpid()
        atexit.register(self.clean)
        signal.signal(signal.SIGTERM, lambda *_: sys.exit(143))
    def clean(self):
        if os.getpid() == self.pid: shutil.rmtree(self.dir, ignore_errors=True)
    def path(self, *a): return os.path.join(self.dir, *a)

    def lib(self, name='lib', cc='gcc', cxx='g++', flags='-O2', std=None, link=True):
        """The library as its own CMake project builds it, as a shared object that exports everything it defines."""
        b = self.path(name)
        env = dict(os.environ, CC=cc, CXX=cxx)
        if std:                                            # a dialect other than the project's: its -std comes first on the command line, the last one counts
            env['CXX'] = self.path(name + '_cxx')
            with open(env['CXX'], 'w') as f: f.write('#!/bin/sh\nexec %s "$@" -std=%s\n' % (cxx, std))
            os.chmod(env['CXX'], 0o755)
        r = sh(['cmake', '-S', REPO, '-B', b, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=None', '-DCMAKE_CXX_FLAGS=-fPIC -w ' + flags], env=env)
        if r.returncode == 0: r = sh(['cmake', '--build', b, '--target', 'neon_sim'])
        if r.returncode: raise LibBuildError('building the library (%s %s) failed:\n%s' % (cxx, flags, r.stdout[-3000:]))
        ar = [f for f in glob.glob(os.path.join(b, '**', '*.a'), recursive=True)]
        so = [f for f in glob.glob(os.path.join(b, '**', 'libneon_sim.so*'), recursive=True)]
        if not link: return (ar + so)[0]
        if not ar: return so[0]
        out = self.path(name + '.so')
        def link_so(objs):
            r = sh(['g++', '-shared', '-o', out, '-Wl,-Bsymbolic', '-Wl,--whole-archive'] + ar + ['-Wl,--no-whole-archive'] + objs + ['-lm'])
            if r.returncode: raise LibBuildError('linking the library failed:\n' + r.stdout[-3000:])
        link_so([])
        o = self.wrappers(name, out, cxx, flags)
        if o: link_so([o])
        return out

    def wrappers(self, name, so, cxx, flags):
        """What a caller of the header gets where that is not the library's symbol: intrinsics the header defines itself (inline) or renames (macro)
        are wrapped in functions of their own, which the harness prefers."""
        import spec
        inc = ['-I' + REPO, '-std=gnu++11', '-w']
        r = sh([cxx, '-dM', '-E', '-x', 'c++'] + inc + [os.path.join(REPO, 'neon_sim.h')])
        macros = {l.split()[1].split('(')[0] for l in r.stdout.splitlines() if l.startswith('#define ')}
        exported = {l.split()[-1] for l in sh(['nm', '-D', '--defined-only', so]).stdout.splitlines() if l.strip()}
        names = sorted(n for n in spec.BYNAME if n in macros or n not in exported)
        src, o = self.path(name + '_wrap.cpp'), self.path(name + '_wrap.o')
        for _ in range(50):
            if not names: return None
            head = ['#include "neon_sim.h"']
            line = lambda n: 'extern "C" %s wrap__%s(%s) { return (%s(%s)); }' % (spec.BYNAME[n].rctype, n, ', '.join('%s a%d' % (a.ctype, i) for i, a in enumerate(spec.BYNAME[n].args)), n, ', '.join('a%d' % i for i in range(len(spec.BYNAME[n].args))))
            open(src, 'w').write('\n'.join(head + [line(n).replace('return (%s' % n, n, 1).replace('));', ');', 1) if spec.BYNAME[n].rctype == 'void' else line(n) for n in names]) + '\n')
            r = sh([cxx, '-c', '-fPIC', src, '-o', o] + inc + flags.split())
            if r.returncode == 0: return o
            bad = {int(m.group(1)) - 2 for m in re.finditer(r'^%s:(\d+):(?:\d+:)? (?:fatal )?error' % re.escape(src), r.stdout, re.M)}
            if not bad: return None
            names = [n for k, n in enumerate(names) if k not in bad]
        return None

    def harness(self, name, selectors, mains, shards=8, extra=(), link=(), opt='-O2'):
        d = self.path('h_' + name)
        r = sh([sys.executable, '-B', os.path.join(MC, 'gen.py'), d, str(shards)] + list(selectors))
        if r.returncode: raise BuildError(r.stdout)
        srcs = sorted(glob.glob(d + '/ops_*.cpp')) + [os.path.join(MC, m) for m in mains]
        flags = ['-std=c++17', opt, '-fno-strict-aliasing', '-ffp-contract=off', '-w', '-I' + REPO, '-I' + MC, '-pthread'] + list(extra)
        objs = []
        def one(s):
            o = os.path.join(d, os.path.basename(s) + '.o')
            return o, sh(['g++'] + flags + ['-c', s, '-o', o])
        with ThreadPoolExecutor(8) as ex:
            for o, r in ex.map(one, srcs):
                if r.returncode: raise BuildError('building the harness failed:\n' + r.stdout[:4000])
                objs.append(o)
        exe = self.path(name + '.exe')
        r = sh(['g++', '-o', exe] + objs + ['-ldl', '-pthread'] + list(link))
        if r.returncode: raise BuildError(r.stdout[:4000])
        return exe

def parallel(*fns):
    with ThreadPoolExecutor(len(fns)) as ex:
        return [f.result() for f in [ex.submit(fn) for fn in fns]]

def run_jsonl(cmd, out, timeout=None, env=None):
    r = subprocess.run(cmd + ['--out', out], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    if r.returncode != 0:
        raise BuildError('%s ended with %s\n%s\n%s' % (' '.join(cmd), r.returncode, r.stdout[-2000:], r.stderr[-3000:]))
    return [json.loads(l) for l in open(out)]

CORE = ['engine.cpp', 'domains.cpp', 'ref.cpp']
VALUE = {'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C23', 'C24', 'C26'}

# the library as shipped, as a release build, and by the other compiler
IMM_BUILDS = [dict(name='lib', cc='gcc', cxx='g++', flags='-O2'), dict(name='ndebug', cc='gcc', cxx='g++', flags='-O3 -DNDEBUG'), dict(name='clang', cc='clang', cxx='clang++', flags='-O2')]

class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t = {'mini': 0, 'quick': 1, 'thorough': 2}[tier]
        self.w = Work()
        self.viol, self.cov, self.assume = [], {'samples': []}, ASSUME.get(prop, [])
        self.level = 'model_checking'
        self.t0 = time.time()
    def add(self, **v): self.viol.append(v)

    # ---------------------------------------------------------------- value properties
    def value(self, selectors, lib=None):
        w = self.w
        if lib: exe = w.harness('value', selectors, CORE + ['main_value.cpp'])
        else: lib, exe = parallel(lambda: w.lib(), lambda: w.harness('value', selectors, CORE + ['main_value.cpp']))
        rows = run_jsonl([exe, '--lib', lib, '--tier', str(self.t)], w.path('value.jsonl'))
        self.absorb(rows, 'value', selectors)
        return rows
    def absorb(self, rows, harness, selectors, **kw):
        c = self.cov
        for r in rows:
            if 'violation' in r: self.add(harness=harness, selectors=list(selectors), **kw, **r['violation'])
            elif 'sample' in r: c['samples'].append(r['sample'])
            elif 'total' in r:
                t = r['total']
                for k, v in t.items():
                    if k != 'violations': c['_' + k] = c.get('_' + k, 0) + v
            elif 'op' in r: c['_ops'] = c.get('_ops', 0) + 1
    def value_cov(self):
        c = self.cov
        c.update(states=c.pop('_tuples', 0), transitions=c.pop('_lanes', 0), traces_validated_against_impl=c.pop('_jobs', 0),
                 operations=c.pop('_ops', 0), distinct_results_at_least=c.pop('_distinct', 0), implementation_calls=c.pop('_calls', 0))
        c['explanation'] = ('states: complete operand assignments (all lanes, scalars and immediate) enumerated, each executed on the compiled library and on '
            'the reference; transitions: result lanes compared; traces: enumeration chunks run to completion in a process of their own; distinct results '
            'is a lower bound from a 65536-bin hash per operation.')
    def run_value(self):
        p = self.prop
        self.value({'C14': ['C14', 'laws:C14'], 'C17': ['C17', 'laws:C17'], 'C23': ['laws:C23'], 'C24': ['laws:C24'], 'C26': ['laws:C26']}.get(p, [p])); self.value_cov()

    # ---------------------------------------------------------------- memory
    def run_mem(self):
        w, foot = self.w, self.prop == 'C03'
        sel = ['C01', 'C02'] if foot else [self.prop]
        fns = [lambda: w.lib(), lambda: w.harness('mem', sel, CORE + ['main_mem.cpp', 'tsan_stubs.cpp'], link=['-rdynamic'])]
        if foot: fns.append(lambda: w.lib('libtrace', 'clang', 'clang++', '-O2 -fsanitize=thread'))
        r = parallel(*fns)
        cmd = [r[1], '--lib', r[0], '--tier', str(self.t), '--mode', 'foot' if foot else 'value'] + (['--tsanlib', r[2]] if foot else ['--prop', self.prop])
        rows = run_jsonl(cmd, w.path('mem.jsonl'))
        self.absorb(rows, 'mem', sel, mode='foot' if foot else 'value')
        c = self.cov
        acc = c.pop('_accesses', 0)
        c.update(states=c.pop('_tuples', 0), transitions=acc if foot else c.pop('_calls', 0), traces_validated_against_impl=c.pop('_jobs', 0), operations=c.pop('_distinct', 0))
        c.pop('_calls', None)
        c['explanation'] = ('states: (operation, immediate, placement, memory content) combinations executed; transitions: ' +
            ('single memory accesses of the instrumented library checked against the operand bounds' if foot else 'library calls compared') + '; traces: completed job processes.')
        c['samples'] = [{'op': 'vst4_u8', 'case': 'flush right: operand ends at the last byte before a PROT_NONE page'}, {'op': 'vld3_lane_u8', 'case': 'source page PROT_READ, lane 5, offset 1031'}] if foot else \
            [{'op': 'vld1q_u16' if self.prop == 'C01' else 'vst3q_s16', 'case': 'labels 1..n at each of the element-aligned offsets of a cache line, page-wide comparison afterwards'}]

    # ---------------------------------------------------------------- immediates
    def run_imm(self):
        w = self.w
        r = parallel(lambda: w.harness('imm', ['all'], CORE + ['main_imm.cpp'], opt='-O1'), *[(lambda b=b: w.lib(**b)) for b in IMM_BUILDS])
        seen = set()
        for b, lib in zip(IMM_BUILDS, r[1:]):
            rows = [x for x in run_jsonl([r[0], '--lib', lib, '--tier', str(self.t)], w.path('imm_%s.jsonl' % b['name'])) if 'violation' not in x or x['violation']['op'] not in seen]
            for x in rows:
                if 'violation' in x:
                    seen.add(x['violation']['op'])
                    if b['name'] != 'lib': x['violation']['what'] = '%s %s: %s' % (b['cxx'], b['flags'], x['violation'].get('what', ''))
                elif 'total' in x and b['name'] != 'lib': x['total'].pop('distinct', None)
            self.absorb(rows, 'imm', ['all'], libargs=b)
        c = self.cov
        c.update(states=c.pop('_tuples', 0), transitions=c.pop('_calls', 0), traces_validated_against_impl=c.pop('_jobs', 0), operations=c.pop('_distinct', 0), permitted_values_executed=c.pop('_valid', 0))
        c['explanation'] = 'states: (operation, immediate, operand context) triples; transitions: calls executed to completion or abnormal end; traces: worker processes completed.'
        c['samples'] = [{'op': 'vgetq_lane_s8', 'immediate': -1, 'outcome': 'SIGABRT with a diagnostic'}, {'op': 'vshr_n_u16', 'immediate': 16, 'outcome': 'returned'}]

    # ---------------------------------------------------------------- reporting
    def known(self):
        ks = []
        p = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(p):
            for l in open(p):
                if l.startswith('finding: '):
                    d = dict(x.split('=', 1) for x in l[9:].split(' ') if '=' in x)
                    if d.get('property') == self.prop: ks.append((d.get('key'), l.strip()))
        return ks
    def finish(self):
        rd = os.path.join(VERIF, 'replays', self.prop)
        shutil.rmtree(rd, ignore_errors=True)
        known = dict(self.known()); out = []; nk = 0
        for i, v in enumerate(self.viol):
            key = '%s|%s' % (v.get('op'), v.get('kind'))
            if key in known:
                nk += 1; print('KNOWN-FINDING: property=%s %s: %s' % (self.prop, key, v.get('what'))); continue
            os.makedirs(rd, exist_ok=True)
            f = os.path.join(rd, '%s_%d.json' % (str(v.get('op')).replace(' ', '_').replace('/', '_')[:60], i))
            json.dump(dict(property=self.prop, tier=self.tier, **v), open(f, 'w'), indent=1)
            out.append((f, v))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        cov = {k: v for k, v in self.cov.items() if not k.startswith('_')}
        cov['samples'] = cov['samples'][:8]
        ev = dict(property=self.prop, tier='thorough' if self.tier == 'thorough' else 'quick', seed=int(os.environ.get('VERIF_SEED', '1')), level=self.level, coverage=cov,
                  assumptions=self.assume, wall_s=round(time.time() - self.t0, 2), violations=len(out))
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w'), indent=1)
        for f, v in out[:20]:
            print('# %s: %s %s' % (v.get('op'), v.get('what'), json.dumps({k: v[k] for k in ('args', 'n', 'got', 'want', 'note') if k in v})))
            print('VIOLATION property=%s replay=%s' % (self.prop, f))
        if len(out) > 20: print('# and %d more' % (len(out) - 20))
        print('%s %s: %d states, %d transitions, %d violations, %d known, %.1f s' % (self.prop, self.tier, cov.get('states', 0), cov.get('transitions', 0), len(out), nk, time.time() - self.t0))
        return 1 if out else 0

    def run(self):
        p = self.prop
        if p in VALUE: self.run_value()
        elif p in ('C01', 'C02', 'C03'): self.run_mem()
        elif p == 'C18': self.run_imm()
        elif p == 'C27':
            import callers
            callers.run_callers(self)
        else:
            import more
            more.run(self)
        return self.finish()

def replay(f):
    v = json.load(open(f)); c = Check(v['property'], v['tier']); w = c.w
    lib, h = None, v['harness']
    if h == 'value':
        lib, exe = parallel(lambda: w.lib(**v.get('libargs', {})), lambda: w.harness('value', v['selectors'], CORE + ['main_value.cpp']))
        if v['kind'] in ('tuple', 'missing'):
            cmd = [exe, '--lib', lib, '--replay', v['op'], str(v.get('n', 0))] + [a for a in v.get('args', []) if isinstance(a, str)]
        else: cmd = [exe, '--lib', lib, '--tier', str(v.get('boxtier', c.t)), '--replaybox', v['op'], str(v['box']), str(v['lo']), str(v['hi'])]
    elif h == 'mem':
        lib, exe, ts = parallel(lambda: w.lib(), lambda: w.harness('mem', v['selectors'], CORE + ['main_mem.cpp', 'tsan_stubs.cpp'], link=['-rdynamic']), lambda: w.lib('libtrace', 'clang', 'clang++', '-O2 -fsanitize=thread'))
        cmd = [exe, '--lib', lib, '--tsanlib', ts, '--tier', str(c.t), '--mode', v['mode'], '--replay', v['op'], str(v.get('part', 0))]
    elif h == 'imm':
        lib, exe = parallel(lambda: w.lib(**v.get('libargs', {})), lambda: w.harness('imm', v['selectors'], CORE + ['main_imm.cpp'], opt='-O1'))
        cmd = [exe, '--lib', lib, '--replay', v['op'], str(v.get('n', 0)), str(v.get('ctx', 0))]
    elif h == 'callers':
        import callers
        callers.run_callers(c, v['config'])
        hit = [x for x in c.viol if x['op'] == v['op']]
        for x in hit: print('%s %s' % (x['op'], x['what']))
        return 1 if hit else 0
    else:
        import more
        return more.replay(c, v)
    r = sh(cmd); print(r.stdout, end='')
    return r.returncode

def main():
    a = sys.argv[1:]
    if a and a[0] == '--replay': sys.exit(replay(a[1]))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    try:
        sys.exit(Check(a[0], tier).run())
    except BuildError as e:
        print('ERROR: %s' % e, file=sys.stderr); sys.exit(2)

if __name__ == '__main__': main()
