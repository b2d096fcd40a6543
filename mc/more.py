"""C19 (histories), C20 (schedules), C21 (build matrix), C22 (types, signatures, linkage)."""
import os, sys, json, re, subprocess
from concurrent.futures import ThreadPoolExecutor
M = sys.modules.get('check') or sys.modules['__main__']
CORE = ['engine.cpp', 'domains.cpp', 'ref.cpp']

def run(c):
    globals()[{'C19': 'run_hist', 'C20': 'run_sched', 'C21': 'run_matrix', 'C22': 'run_api', 'C25': 'run_reent'}[c.prop]](c)

# ---------------------------------------------------------------- C19
def hist_build(c):
    w = c.w
    return M.parallel(lambda: w.lib(), lambda: w.harness('hist', ['all'], CORE + ['main_hist.cpp'], opt='-O1', shards=16, link=['-rdynamic']))
def run_hist(c):
    w = c.w
    lib, exe = hist_build(c)
    rows = M.run_jsonl([exe, '--lib', lib, '--tier', str(c.t)], w.path('hist.jsonl'))
    c.absorb(rows, 'hist', ['all'])
    v = c.cov
    n = v.pop('_tuples', 0)
    v.update(states=n, transitions=v.pop('_calls', 0), traces_validated_against_impl=v.pop('_jobs', 0), operations=v.pop('_distinct', 0),
             library_states_reached=v.pop('_libstates', 0), library_state_transitions=v.pop('_transitions', 0), call_contexts=v.pop('_cases', 0), library_state_bytes=v.pop('_statebytes', 0), states_not_expanded=v.pop('_truncated', 0))
    v['explanation'] = ('states: histories (pairs f g f over all intrinsics, depth 2 and 3 of each intrinsic, repetitions, stack residues, caller environments) executed on the implementation; transitions: calls, each compared with '
        'the same call in a fresh process; traces: exploration processes completed; library_states_reached: distinct contents of the library\'s writable memory reached by any call sequence (one state closed under every call context is a fixpoint: '
        'no history of these calls of any length can change a result through library memory).')
    v['samples'] = [{'history': 'vadd_u8(case 0), vrecpeq_f32(case 1), vadd_u8(case 0)'}, {'history': 'vld1q_u16 with one memory element changed between calls at the same address'}]

def replay(c, v):
    w, h = c.w, v['harness']
    if h == 'api':
        run_api(c)
        hit = [x for x in c.viol if x['op'] == v['op'] and x['what'] == v['what']]
        for x in hit: print('%s %s' % (x['op'], x['what']))
        return 1 if hit else 0
    if h == 'hist':
        lib, exe = hist_build(c)
        cmd = [exe, '--lib', lib, '--tier', str(c.t), '--replay', str(v['mode']), v['job']]
    elif h == 'matrix':
        m = [x for x in MATRIX if x[0] == v['config']][0]
        exe, base, lib = M.parallel(lambda: w.harness('value', SEL21, CORE + ['main_value.cpp'], shards=24, opt='-O1'), lambda: w.lib(*BASE), lambda: w.lib(*m))
        cmd = [exe, '--lib', lib, '--base', base, '--tier', str(v['boxtier'])]; env = san_env(m)
        cmd += ['--replay', v['op'], str(v.get('n', 0))] + [a for a in v.get('args', []) if isinstance(a, str)] if v['kind'] == 'tuple' else ['--replaybox', v['op'], str(v['box']), str(v['lo']), str(v['hi'])]
    elif h == 'reent':
        lib, exe = reent_build(c)
        cmd = [exe, '--lib', lib, '--tsanlib', lib, '--tier', str(c.t), '--reentrant', '--replay', str(v['part']), v['op'], v['other']]
    elif h == 'sched':
        lib, ts, exe = sched_build(c)
        cmd = [exe, '--lib', lib, '--tsanlib', ts, '--tier', str(c.t), '--replay', str(v['part']), v['op'], v['other']]
    r = M.sh(cmd, env=env) if h == 'matrix' and env else M.sh(cmd); print(r.stdout, end='')
    return r.returncode

# ---------------------------------------------------------------- C20
def sched_build(c):
    w = c.w
    return M.parallel(lambda: w.lib(), lambda: w.lib('libtrace', 'clang', 'clang++', '-O1 -fsanitize=thread'),
                      lambda: w.harness('sched', ['all'], CORE + ['main_sched.cpp', 'tsan_stubs.cpp'], opt='-O1', shards=16, link=['-rdynamic']))
def run_sched(c):
    w = c.w
    lib, ts, exe = sched_build(c)
    rows = M.run_jsonl([exe, '--lib', lib, '--tsanlib', ts, '--tier', str(c.t)], w.path('sched.jsonl'))
    c.absorb(rows, 'sched', ['all'])
    v = c.cov
    v.update(states=v.pop('_points', 0), transitions=v.pop('_runs', 0), schedules=v.pop('_schedules', 0), traces_validated_against_impl=v.pop('_jobs', 0), operations=v.pop('_distinct', 0),
             call_pairs_stepped=v.pop('_pairs', 0), intrinsic_pairs_checked_for_conflicts=v.pop('_allpairs', 0), conflicting_pairs=v.pop('_conflicts', 0), pairs_leaving_a_trace=v.pop('_dirty', 0),
             library_accesses_recorded=v.pop('_accesses', 0), shared_locations=v.pop('_sharedlocs', 0))
    v['explanation'] = ('states: instructions of the shipped build before which the other thread ran a whole call; transitions: calls run at those points; schedules: preemption schedules covered; '
        'intrinsic pairs whose recorded shared accesses do not conflict have a single schedule up to equivalence (partial-order reduction), the others are run under every schedule with at most two '
        'preemptions at the conflicting accesses; traces: completed jobs.')
    v['samples'] = [{'schedule': 'thread A inside vst1_u8 at p, thread B runs vst1_u8 at p+8 before each instruction of A'}, {'schedule': 'thread A inside vrecpeq_f32(u), thread B runs vrecpeq_f32(v) before each instruction of A'}]

# ---------------------------------------------------------------- C25
def reent_build(c):
    w = c.w
    return M.parallel(lambda: w.lib(), lambda: w.harness('sched', ['all'], CORE + ['main_sched.cpp', 'tsan_stubs.cpp'], opt='-O1', shards=16, link=['-rdynamic']))
def run_reent(c):
    w = c.w
    lib, exe = reent_build(c)
    rows = M.run_jsonl([exe, '--lib', lib, '--tsanlib', lib, '--tier', str(c.t), '--reentrant'], w.path('reent.jsonl'))
    c.absorb(rows, 'reent', ['all'])
    v = c.cov
    v.update(states=v.pop('_points', 0), transitions=v.pop('_runs', 0), schedules=v.pop('_schedules', 0), traces_validated_against_impl=v.pop('_jobs', 0), operations=v.pop('_distinct', 0), nested_call_pairs=v.pop('_pairs', 0), pairs_leaving_a_trace=v.pop('_dirty', 0))
    v['explanation'] = ('states: instructions of the shipped build before which a signal handler in the same thread made calls; transitions: calls made from the handler; schedules: (interrupted instruction, handler call) '
        'combinations covered; pairs_leaving_a_trace: pairs whose handler call changed library memory, each preemption point of which was run separately from the initial state; traces: completed jobs.')
    v['samples'] = [{'schedule': 'vtbl4_u8(u) interrupted before each of its instructions by vtbl4_u8(v), then by one call of every intrinsic'}]

# ---------------------------------------------------------------- C21
BASE = ('base', 'gcc', 'g++', '-O2')
MATRIX = [('gcc_O0_pattern', 'gcc', 'g++', '-O0 -ftrivial-auto-var-init=pattern -fwrapv -D_GLIBCXX_ASSERTIONS'),
          ('gcc_O3_uchar_ndebug', 'gcc', 'g++', '-O3 -funsigned-char -DNDEBUG -D_FORTIFY_SOURCE=2'),
          ('gcc_Os_zero', 'gcc', 'g++', '-Os -ftrivial-auto-var-init=zero', 'c++17'),
          ('clang_O0_uchar_pattern', 'clang', 'clang++', '-O0 -funsigned-char -ftrivial-auto-var-init=pattern'),
          ('clang_O2', 'clang', 'clang++', '-O2'),
          ('clang_O3_avx2', 'clang', 'clang++', '-O3 -mavx2 -mno-fma -ffp-contract=off', 'c++20'),
          ('gcc_O3_avx2', 'gcc', 'g++', '-O3 -mavx2 -mno-fma -ffp-contract=off'),
          ('clang_ubsan', 'clang', 'clang++', '-O1 -fstrict-flex-arrays=3 -fsanitize=undefined,float-cast-overflow,local-bounds -fno-sanitize=function,vptr -fsanitize-trap=all'),
          ('clang_asan', 'clang', 'clang++', '-O0 -fno-omit-frame-pointer -fsanitize=address -fsanitize-address-use-after-scope -shared-libasan')]
def san_env(m):   # the address sanitizer's runtime has to be in the process that loads the library
    if 'fsanitize=address' not in m[3]: return None
    rt = M.sh([m[2], '-print-file-name=libclang_rt.asan-x86_64.so']).stdout.strip()
    return dict(os.environ, LD_PRELOAD=rt, ASAN_OPTIONS='detect_leaks=0:handle_segv=0:handle_abort=0:handle_sigill=0:handle_sigfpe=0:abort_on_error=1:verify_asan_link_order=0:quarantine_size_mb=1:detect_stack_use_after_return=1')
SEL21 = ['C%02d' % i for i in range(4, 18)] + ['laws:C21']
def run_matrix(c):
    w = c.w
    r = M.parallel(lambda: w.harness('value', SEL21, CORE + ['main_value.cpp'], shards=24, opt='-O1'), lambda: w.lib(*BASE), *[(lambda m=m: w.lib(*m)) for m in MATRIX])
    exe, base, libs = r[0], r[1], r[2:]
    seen = set()
    for m, lib in zip(MATRIX, libs):
        tier = ((0, 3, 1) if m[0] == 'clang_ubsan' else (0, 0, 3))[c.t]
        env = san_env(m)
        rows = M.run_jsonl([exe, '--lib', lib, '--base', base, '--tier', str(tier)], w.path(m[0] + '.jsonl'), env=env)
        rows = [x for x in rows if 'violation' not in x or (x['violation']['op'], m[0]) not in seen]
        for x in rows:
            if 'violation' in x: x['violation']['what'] = '%s %s: %s' % (m[2], m[3], x['violation']['what'])
        c.absorb(rows, 'matrix', SEL21, config=m[0], boxtier=tier)
    c.value_cov()
    c.cov['configurations'] = [' '.join(m[2:]) for m in (BASE,) + tuple(MATRIX)]
    c.cov['explanation'] = ('states: operand assignments executed on one build of the matrix and on the gcc -O2 build; transitions: result lanes compared between the two builds; the sanitizer build ends the process '
        'at the first undefined operation, which is a violation unless the gcc -O2 build ends the process for the same call; traces: enumeration chunks completed.')

# ---------------------------------------------------------------- C22
ELEM = {'int': 'int%d_t', 'uint': 'uint%d_t', 'float': 'float%d_t'}
def vtypes():
    r = []
    for b, ws in (('int', (8, 16, 32, 64)), ('uint', (8, 16, 32, 64)), ('float', (32, 64))):
        for q in (64, 128):
            for w in ws:
                one = '%s%dx%d' % (b, w, q // w)
                for n in (1, 2, 3, 4):
                    r.append((one + ('_t' if n == 1 else 'x%d_t' % n), ELEM[b] % w if n == 1 else one + '_t', q // w if n == 1 else n, q // 8 * n))
    return r
def acle():
    t = {}
    for l in open(os.path.join(M.MC, 'acle.txt')):
        n, r, a = l.strip().split('|')
        t[n] = (r, a.split(',') if a else [])
    return t
def lines_of(out, path):   # source lines with an error
    s = set()
    for m in re.finditer(r'^%s:(\d+)(?::\d+)?: (?:fatal )?error: (.*)$' % re.escape(path), out, re.M): s.add((int(m.group(1)), m.group(2)))
    return s
CXXS = [('g++', 'c++11'), ('g++', 'c++17'), ('clang++', 'c++11'), ('clang++', 'c++20')]
CS = [('gcc', 'c99'), ('gcc', 'c17'), ('clang', 'c99'), ('clang', 'c11')]
def run_api(c):
    import spec
    w, T, sig = c.w, vtypes(), acle()
    inc = ['-I' + M.REPO, '-w']
    states = progs = 0
    def bad(op, what, **kw): c.add(harness='api', op=op, kind='api', what=what, **kw)
    # the header by itself, in every dialect
    open(w.path('h.cpp'), 'w').write('#include "neon_sim.h"\n'); open(w.path('h.c'), 'w').write('#include "neon_sim.h"\n')
    usable = True; broken, inits, TN = set(), [], {}
    for cc, std in CXXS + CS:
        src = w.path('h.cpp' if 'c++' in std else 'h.c')
        r = M.sh([cc, '-std=' + std, '-fsyntax-only', src] + inc); progs += 1
        if r.returncode: bad('neon_sim.h', 'the header does not compile with %s -std=%s: %s' % (cc, std, r.stdout[:300])); usable = False
    lib = w.lib(link=False)
    r = M.sh(['nm', '-g', '--defined-only', lib])
    exported = set(l.split()[-1] for l in r.stdout.splitlines() if len(l.split()) >= 3)
    provided = sorted((exported & set(sig)) | set(spec.BYNAME))
    for n in provided:
        if n not in exported and not usable: bad(n, 'not exported by the library under its C name')   # else compiled and linked below
    if usable:
        # one assertion per line; the compiler's verdict is read back per line
        def emit(path, head, items):
            with open(path, 'w') as f:
                f.write(head + '\n')
                for k, (op, what, code) in enumerate(items): f.write(code + '\n')
        ctype = lambda a: a
        fty = lambda n, star: '%s%s(%s)' % (sig[n][0], star, ', '.join(sig[n][1]) or 'void')
        cxx, cc_ = [], []
        for n in provided:
            cxx.append((n, 'is not declared with its ACLE signature %s' % fty(n, ' '), 'static_assert(std::is_same<decltype(&::%s), %s>::value, "");' % (n, fty(n, '(*)'))))
            cc_.append((n, 'is not declared with its ACLE signature %s' % fty(n, ' '), '_Static_assert(__builtin_types_compatible_p(__typeof__(%s), %s), "");' % (n, fty(n, ''))))
        # the rest of the declared interface: one program in which every declared name is used, in each language
        seen_d = [set(re.findall(r'\bv\w+', M.sh([cc, '-std=' + std, '-E', '-P', w.path(f)] + inc).stdout)) for cc, std, f in (('g++', 'c++17', 'h.cpp'), ('gcc', 'c17', 'h.c'))]
        declared = sorted(n for n in sig if n not in provided and any(n in d for d in seen_d))
        for n in declared:
            if n in seen_d[0]: cxx.append((n, 'is not declared with its ACLE signature %s' % fty(n, ' '), 'static_assert(std::is_same<decltype(&::%s), %s>::value, "");' % (n, fty(n, '(*)'))))
            if n in seen_d[1]: cc_.append((n, 'is not declared with its ACLE signature %s' % fty(n, ' '), '_Static_assert(__builtin_types_compatible_p(__typeof__(%s), %s), "");' % (n, fty(n, ''))))
        for t, e, k, size in T:
            for lst, sa, same in ((cxx, 'static_assert', 'std::is_same<std::remove_reference<decltype(((%s*)0)->val[0])>::type, %s>::value' % (t, e)), (cc_, '_Static_assert', '__builtin_types_compatible_p(__typeof__(((%s*)0)->val[0]), %s)' % (t, e))):
                lst.append((t, 'does not have size %d' % size, '%s(sizeof(%s) == %d, "");' % (sa, t, size)))
                lst.append((t, 'does not hold %d elements' % k, '%s(sizeof(((%s*)0)->val) / sizeof(((%s*)0)->val[0]) == %d, "");' % (sa, t, t, k)))
                lst.append((t, 'does not hold elements of type %s' % e, '%s(%s, "");' % (sa, same)))
            cxx.append((t, 'is not a trivially copyable standard layout type', 'static_assert(std::is_standard_layout<%s>::value && std::is_trivial<%s>::value, "");' % (t, t)))
        # brace lists fill the lanes in order (one level, as for an array of its lanes), in constant expressions and at run time
        TN = {t[0]: t for t in T}
        flat = lambda t: (TN[t[1]][1], TN[t[1]][2], t[2]) if t[1] in TN else (t[1], t[2], 1)
        inits = []
        for t in T:
            e, k, n = flat(t)
            vals = ', '.join(str(i + 1) for i in range(k * n))
            lane = lambda i: 'val[%d]' % i if n == 1 else 'val[%d].val[%d]' % (i // k, i % k)
            cxx.append((t[0], 'a brace list of its lanes does not initialise it in lane order', 'constexpr %s i_%s = {%s}; static_assert(%s, "");' % (t[0], t[0], vals, ' && '.join('i_%s.%s == %d' % (t[0], lane(i), i + 1) for i in range(k * n)))))
            cc_.append((t[0], 'a brace list of its lanes does not initialise it', 'static const %s i_%s = {%s};' % (t[0], t[0], vals)))
            inits.append('{ %s x = {%s}, z = {0}; static const %s w[] = {%s}; unsigned char b[sizeof w] = {0}; if (sizeof x != sizeof w || memcmp(&x, w, sizeof w) || memcmp(&z, b, sizeof b)) printf("INIT %s\\n"); }' % (t[0], vals, e, vals, t[0]))
        for i, a in enumerate(T):
            for b in T[:i]:
                cxx.append((a[0], 'is the same type as ' + b[0], 'static_assert(!std::is_same<%s, %s>::value, "");' % (a[0], b[0])))
                cc_.append((a[0], 'is compatible with ' + b[0], '_Static_assert(!__builtin_types_compatible_p(%s, %s), "");' % (a[0], b[0])))
        emit(w.path('sig.cpp'), '#include "neon_sim.h"\n#include <type_traits>', cxx); emit(w.path('sig.c'), '#include "neon_sim.h"\n', cc_)
        jobs = [(cc, std, w.path('sig.cpp'), cxx) for cc, std in CXXS] + [(cc, std.replace('c99', 'gnu99'), w.path('sig.c'), cc_) for cc, std in CS]
        # substitution of one argument by every other vector type: C++ by overload resolution, C by compiling each call
        sub, nsub = [], 0
        vts = [t[0] for t in T]
        for n in provided:
            for k, a in enumerate(sig[n][1]):
                if a in vts: sub.append((n, k)); nsub += len(vts) - 1
        if True:
            f = ['#include "neon_sim.h"', '#undef __ARM_NEON', '#undef __aarch64__', '#include <stdio.h>', '#include <type_traits>', '#include <utility>', 'template<class...> struct L{};',
                 'template<class F, class, class = void> struct callable : std::false_type{};',
                 'template<class F, class... A> struct callable<F, L<A...>, std::void_t<decltype(std::declval<F>()(std::declval<A>()...))>> : std::true_type{};',
                 'typedef L<%s> All;' % ','.join(vts), 'static const char* const N[] = {%s};' % ','.join('"%s"' % v for v in vts), 'static long cnt;',
                 'template<class F, class T, class B, class A, class... X> struct one;',
                 'template<class F, class T, class... P, class... S, class X> struct one<F, T, L<P...>, L<S...>, X> { static void go(const char* f, int k, int i) { if (std::is_same<T, X>::value) return; cnt++; if (callable<F, L<P..., X, S...>>::value) printf("BAD %s %d %s\\n", f, k, N[i]); } };',
                 'template<class F, class T, class P, class S, class... X> void all(const char* f, int k, L<X...>) { int i = 0; (one<F, T, P, S, X>::go(f, k, i++), ...); }']
            NS = 8
            for s in range(NS):
                g = list(f) + ['int main() {']
                for n, k in sub[s::NS]:
                    a = sig[n][1]
                    g.append('all<decltype(&::%s), %s, L<%s>, L<%s>>("%s", %d, All());' % (n, a[k], ','.join(a[:k]), ','.join(a[k + 1:]), n, k))
                g.append('printf("COUNT %ld\\n", cnt); }')
                open(w.path('sub%d.cpp' % s), 'w').write('\n'.join(g) + '\n')
        csub = {}
        g = ['#include "neon_sim.h"'] + ['extern %s x_%s;' % (t, t) for t in vts] + ['extern %s s_%s;' % (t, re.sub(r'\W', '_', t)) for t in sorted(set(a for n in provided for a in sig[n][1] if a not in vts))]
        ref = lambda a: 'x_' + a if a in vts else 's_' + re.sub(r'\W', '_', a)
        good = {}
        g.append('void probe(void) {')
        for n, k in sub:
            a = sig[n][1]
            for t in vts:
                if t == a[k]: continue
                g.append('%s(%s);' % (n, ','.join(ref(x) if i != k else 'x_' + t for i, x in enumerate(a)))); csub[len(g)] = (n, k, t)
        g.append('}')
        open(w.path('csub.c'), 'w').write('\n'.join(g) + '\n')
        gg = g[:g.index('void probe(void) {') + 1] + ['%s(%s);' % (n, ','.join(ref(x) for x in sig[n][1])) for n in provided] + ['}']
        open(w.path('cgood.c'), 'w').write('\n'.join(gg) + '\n')
        good0 = g.index('void probe(void) {') + 2
        def sigjob(j):
            cc, std, src, items = j
            return j, M.sh([cc, '-std=' + std, '-fsyntax-only', '-fmax-errors=0' if cc.startswith('g') else '-ferror-limit=0', '-fno-diagnostics-show-caret' if cc.startswith('g') else '-fno-caret-diagnostics', src] + inc)
        def subjob(s):
            o = w.path('sub%d' % s)
            r = M.sh(['g++' if s % 2 else 'clang++', '-std=c++17', '-O0', '-fsyntax-only' if False else '-w', '-I' + M.REPO, '-ftemplate-depth=2000', w.path('sub%d.cpp' % s), '-o', o, '-Wl,--unresolved-symbols=ignore-all'])
            return r if r.returncode else M.sh([o])
        def cjob(src): return M.sh(['clang', '-std=c11', '-fsyntax-only', '-ferror-limit=0', '-fno-caret-diagnostics', '-fno-spell-checking', src, '-I' + M.REPO, '-Wno-unused-value'])
        with ThreadPoolExecutor(8) as ex:
            fs = [ex.submit(sigjob, j) for j in jobs]; fu = [ex.submit(subjob, s) for s in range(NS)]; fc = ex.submit(cjob, w.path('csub.c')); fg = ex.submit(cjob, w.path('cgood.c'))
            seen = set()
            broken = set()
            for fut in fs:
                (cc, std, src, items), r = fut.result(); progs += 1; states += len(items)
                errs = lines_of(r.stdout, src)
                if r.returncode and not errs: bad('neon_sim.h', '%s -std=%s: %s' % (cc, std, r.stdout[:400]))
                for ln, msg in sorted(errs):
                    k = ln - 3 if ln >= 3 else None
                    op, what = (items[k][0], items[k][1]) if k is not None and k < len(items) else ('neon_sim.h', msg)
                    broken.add(op)
                    if (op, what) in seen: continue
                    seen.add((op, what)); bad(op, '%s (%s -std=%s)' % (what, cc, std))
            for fut in fu:
                r = fut.result(); progs += 1
                m = re.search(r'^COUNT (\d+)$', r.stdout, re.M)
                if not m:
                    if not broken: bad('neon_sim.h', 'substitution program: ' + r.stdout[:400])
                    continue
                states += int(m.group(1))
                for op, k, t in re.findall(r'^BAD (\S+) (\d+) (\S+)$', r.stdout, re.M): bad(op, 'accepts %s as argument %d in C++' % (t, int(k) + 1))
            r = fc.result(); progs += 1
            errs = set(l for l, _ in lines_of(r.stdout, w.path('csub.c')))
            states += len(csub)
            pre = set(l for l in errs if l not in csub)
            if not broken:
                if pre: bad('neon_sim.h', 'C substitution program: ' + r.stdout[:400])
                for ln, (op, k, t) in csub.items():
                    if ln not in errs: bad(op, 'accepts %s as argument %d in C' % (t, k + 1))
            r = fg.result(); progs += 1; states += len(provided)
            for ln, msg in sorted(lines_of(r.stdout, w.path('cgood.c'))):
                k = ln - good0
                op = provided[k] if 0 <= k < len(provided) else 'neon_sim.h'
                if op not in broken: bad(op, 'a well-typed C call does not compile: ' + msg)
        # linking from C and from C++
        decl = [n for n in provided if n not in broken]
        main = '#include "neon_sim.h"\n#include "neon_sim.h"\n#include <stdio.h>\n#include <string.h>\nint other(void);\ntypedef void (*fp)(void);\nfp const volatile table[] = {%s};\nint main(void) { unsigned n = 0, i; for (i = 0; i < sizeof table / sizeof *table; i++) n += table[i] != 0; printf("%%u\\n", n + other()); %s return 0; }\n' % (',\n'.join('(fp)%s' % n for n in decl), '\n'.join(inits) if usable and not broken & set(TN) else '')
        second = '#include "neon_sim.h"\ntypedef void (*fp)(void);\nstatic fp const volatile t[] = {%s};\nint other(void) { return t[0] == 0; }\n' % ', '.join('(fp)%s' % n for n in decl[::17])
        for cc, src in (('gcc', 'lc.c'), ('g++', 'lx.cpp'), ('clang', 'lc.c'), ('clang++', 'lx.cpp')):
            open(w.path(src), 'w').write(main); open(w.path('second_' + src), 'w').write(second)
            exe = w.path('l_' + cc)
            r = M.sh([cc, '-w', '-I' + M.REPO, w.path(src), w.path('second_' + src), '-o', exe, lib, '-lstdc++', '-lm', '-pthread']); progs += 1; states += len(decl)
            und = sorted(set(re.findall(r"undefined reference to [`'](\w+)", r.stdout)))
            for n in und:
                if n in exported or n in provided: bad(n, 'does not link from a program built with ' + cc)
            if r.returncode and not und: bad('neon_sim', 'linking with %s failed: %s' % (cc, r.stdout[-300:]))
            if r.returncode == 0:
                o = M.sh([exe])
                for t in re.findall(r'^INIT (\S+)', o.stdout, re.M): bad(t, 'a brace list of its lanes does not initialise it in lane order')
                if o.stdout.split('\n')[0] != str(len(decl)): bad('neon_sim', 'the program linked with %s did not run: %s' % (cc, o.stdout[:200]))
    uniq, keep = set(), []
    for v in c.viol:
        k = (v['op'], v['what'].split(' (')[0])
        if k not in uniq: uniq.add(k); keep.append(v)
    c.viol = keep
    c.cov.update(states=states, transitions=nsub, traces_validated_against_impl=progs, operations=len(provided), declared_only=len(declared) if usable else 0, vector_types=len(T), exported=len(exported),
        explanation='states: (intrinsic, dialect) signature assertions, type layout and type distinctness assertions, and single-argument type substitutions decided by a compiler; transitions: single-argument substitutions tried in each language; traces: compiler and linker runs on the real header and library.',
        samples=[{'call': 'vadd_u8(int8x8_t, uint8x8_t)', 'verdict': 'rejected in C and C++'}, {'signature': 'uint8x8_t vqmovun_s16(int16x8_t)', 'verdict': 'exact in 8 dialects'}])
