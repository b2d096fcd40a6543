// C19: explicit-state search over call histories of the compiled library.
//   main_hist --lib LIB --tier T --out FILE
//   main_hist --lib LIB --tier T --replay MODE INDEX      re-runs one exploration job; exit 1 when it fails
// The oracle is the same call in a process that has called nothing else.
#include "cases.hpp"
#include "pool.hpp"
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <errno.h>
#include <time.h>
#include <unistd.h>
#include <stdlib.h>
#include <map>

static std::string g_lib;
static LibState g_st;
static Arena g_ar;
static int g_fd = -1;
struct Viol { int set; int mode; int op, cs, prevop, prevcs; char what[160]; Result got, want; Case c, pc; };   // cs < 0: the call is c, the one before it pc
struct Shared { volatile uint64_t calls, states, transitions, forks, truncated; volatile int nhash; uint64_t hashes[65536]; };
static Shared* S;
struct OpC { std::vector<Case> c; std::vector<char> ok; Result* fresh; uint32_t* mode0; };
static std::vector<OpC> O;
static Viol* V;
static size_t g_job;
static std::vector<std::pair<int, int>> ACT;              // every usable call context

static void fail(int mode, int op, int cs, int pop, int pcs, const char* what, const Result& got) {
    Viol& v = V[g_job];
    if (v.set) _exit(0);
    v.mode = mode; v.op = op; v.cs = cs; v.prevop = pop; v.prevcs = pcs; snprintf(v.what, sizeof v.what, "%s", what);
    v.got = got; v.want = O[op].fresh[cs]; v.set = 1;
    _exit(0);
}
static __attribute__((noinline)) void paint(int b) { volatile uint8_t m[12000]; memset((void*)m, b, sizeof m); __asm__ volatile("" ::"r"(m) : "memory"); }
static uint32_t g_fp;
static int lastop = -1, lastcs = -1;
static uint64_t ncalls;
static inline void step(int mode, int op, int cs) {       // one call of a history, compared with the fresh result
    Result r; bool ch = false;
    run_case(g_ops[op], O[op].c[cs], g_ar, r, &ch);
    ncalls++;
    if (__builtin_expect(memcmp(&r, &O[op].fresh[cs], sizeof r) != 0, 0)) fail(mode, op, cs, lastop, lastcs, "result after a history differs from the result of the same call alone", r);
    if (__builtin_expect(ch, 0)) fail(mode, op, cs, lastop, lastcs, "a load changed the memory it reads", r);
    if (__builtin_expect(fpmode() != g_fp, 0)) fail(mode, op, cs, lastop, lastcs, "the floating-point control state changed", r);
    lastop = op; lastcs = cs;
}
static void output_check(int mode, int op) {
    fflush(NULL);
    struct stat st; fstat(g_fd, &st);
    if (st.st_size) { Result r; memset(&r, 0, sizeof r); char t[60] = {0}; pread(g_fd, t, 50, 0); char w[120]; snprintf(w, sizeof w, "a valid call wrote to stdout/stderr: %s", t); fail(mode, op, 0, lastop, lastcs, w, r); }
}
static void begin() {
    g_fd = memfd_create("out", 0);
    dup2(g_fd, 1); dup2(g_fd, 2);
    g_fp = fpmode();
}
static int usable(int op) { return O[op].c.empty() ? 0 : 1; }
// --- all ordered pairs f(u) g(v) f(u)
static void job_pairs(int f, int tier) {
    const int ku = tier == 2 ? 8 : 3, kv = tier == 2 ? 6 : 2;
    for (int g = 0; g < (int)g_ops.size(); g++) {
        if (!usable(g)) continue;
        for (int u = 0; u < (int)O[f].c.size() && u < ku; u++) for (int v = 0; v < (int)O[g].c.size() && v < kv; v++) {
            if (!O[f].ok[u] || !O[g].ok[v]) continue;
            step(0, f, u); step(0, g, v); step(0, f, u);
            __atomic_fetch_add(&S->states, 1, __ATOMIC_RELAXED);
        }
    }
    output_check(0, f);
}
// --- all histories of depth 2 (all cases) and 3 (leading cases) of one intrinsic
static void job_self(int f, int tier) {
    auto& C = O[f]; const int n = C.c.size(), k3 = std::min(n, tier == 2 ? 90 : 26);
    uint64_t st = 0;
    for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) if (C.ok[u] && C.ok[v]) { step(1, f, u); step(1, f, v); st++; }
    for (int u = 0; u < k3; u++) for (int v = 0; v < k3; v++) for (int w = 0; w < k3; w++) if (C.ok[u] && C.ok[v] && C.ok[w]) { step(1, f, u); step(1, f, v); step(1, f, w); st++; }
    __atomic_fetch_add(&S->states, st, __ATOMIC_RELAXED);
    output_check(1, f);
}
// --- residues on the stack, and long repetition
static void job_repeat(int f, int tier) {
    auto& C = O[f]; const int n = C.c.size();
    uint64_t st = 0;
    for (int b : {0, 0xff, 0xa5, 0x7f}) for (int u = 0; u < n; u++) if (C.ok[u]) { paint(b); step(2, f, u); st++; }
    // the same call over and over: only the call and the comparison
    const long L = tier == 2 ? 1l << 26 : tier == 1 ? 5l << 20 : 1000;
    if (mem_arg(g_ops[f]) < 0) {
        const int u = n > 1 && C.ok[1] ? 1 : 0;           // context 1: lane labels
        if (C.ok[u]) {
            step(2, f, u);
            alignas(64) static uint8_t in[5][64], o[64]; const uint8_t* p[5]; const Op& op = g_ops[f];
            for (int i = 0; i < op.nargs; i++) { memcpy(in[i], C.c[u].a[i], 64); p[i] = in[i]; }
            const int rb = op.retEb * op.retLanes; memset(o, 0, 64);
            for (long i = 0; i < L; i++) {
                op.call(p, C.c[u].n, o);
                if (__builtin_expect(memcmp(o, C.fresh[u].b, rb) != 0, 0)) { Result r; memset(&r, 0, sizeof r); memcpy(r.b, o, 64); fail(2, f, u, f, u, "result after a history differs from the result of the same call alone", r); }
            }
            st += L; ncalls += L;
        }
    }
    const long R = tier == 2 ? 3 << 20 : 140000;
    for (int u = 0; u < 2 && u < n; u++) if (C.ok[u]) for (long i = 0; i < R / 2; i++) step(2, f, u);
    for (long i = 0; i < R; i++) { int u = i % n; if (C.ok[u]) step(2, f, u); }
    __atomic_fetch_add(&S->states, st + R + R, __ATOMIC_RELAXED);
    output_check(2, f);
}
// --- neighbourhoods: a call between two calls that differ from it in very little (any bit, any lane, lanes exchanged, sums kept), against
//     the same call after quite different ones.  Finds results remembered under a key that does not determine the call.
static void failc(int mode, int op, const Case& c, const Case& pc, const char* what, const Result& got, const Result& want) {
    Viol& v = V[g_job];
    if (v.set) _exit(0);
    v.mode = mode; v.op = op; v.cs = v.prevcs = -1; v.c = c; v.pc = pc; v.got = got; v.want = want; snprintf(v.what, sizeof v.what, "%s", what); v.set = 1;
    _exit(0);
}
static inline uint64_t rhash(const Result& r) { uint64_t h = 0x9e3779b97f4a7c15ull; for (int i = 0; i < 128; i += 8) { uint64_t v; memcpy(&v, r.b + i, 8); h = (h ^ v) * 0xff51afd7ed558ccdull; h ^= h >> 31; } return h; }
static std::vector<Case> near(const Op& op, const Case& base, int tier) {
    std::vector<Case> out;
    Case b = base; auto es = elems(op, b);
    auto at = [&](const Case& c, const Elem& e) { uint64_t v = 0; memcpy(&v, c.a[0] + (e.p - b.a[0]), e.eb); return v; };
    auto set = [&](Case& c, const Elem& e, uint64_t v) { memcpy(c.a[0] + (e.p - b.a[0]), &v, e.eb); };
    for (auto& e : es) for (int k = 0; k < 8 * e.eb; k++) { Case c = b; set(c, e, at(b, e) ^ 1ull << k); out.push_back(c); }
    for (auto& e : es) { const Dom& d = edom(op, e, 64); for (int k = 0; k < (tier == 2 ? 24 : 6); k++) { Case c = b; set(c, e, d[k]); out.push_back(c); } }
    for (size_t i = 0; i < es.size(); i++) for (size_t j = i + 1; j < es.size(); j++) {
        if (es[i].eb != es[j].eb) continue;
        if (es.size() > 48 && tier != 2 && (j - i) % 4 > 1) continue;
        const uint64_t x = at(b, es[i]), y = at(b, es[j]);
        auto two = [&](uint64_t p, uint64_t q) { Case c = b; set(c, es[i], p); set(c, es[j], q); out.push_back(c); };
        two(y, x); two(x + 1, y - 1); two(x - 1, y + 1); two(x ^ 1, y ^ 1); two(x ^ 1ull << (8 * es[i].eb - 1), y ^ 1ull << (8 * es[j].eb - 1));
        if (j == i + 1) {                                  // weighted sums and shifted exclusive-ors of neighbours kept
            for (int w : {2, 3, 4, 5, 7, 8, 10, 13, 16, 17, 31, 32, 33, 37, 64, 65, 100, 101, 127, 128, 129, 131, 137, 251, 255, 256, 257, 1000, 1009, 65535, 65536, 65599}) if (es[i].eb > 2 || w < (1 << 8 * es[i].eb)) { two(x + 1, y - w); two(x - 1, y + w); two(x - w, y + 1); two(x + w, y - 1); }
            for (int k = 1; k < 8 * es[i].eb; k++) { two(x ^ 1, y ^ 1ull << k); two(x ^ 1ull << k, y ^ 1); }
        }
    }
    for (int i = 0; i < op.nargs; i++) for (int j = i + 1; j < op.nargs; j++) if (op.a[i].role == 'v' && op.a[j].role == 'v') { Case c = b; memcpy(c.a[i], b.a[j], 64); memcpy(c.a[j], b.a[i], 64); out.push_back(c); }
    for (int i = 0; i < op.nargs; i++) if (op.a[i].role == 'v') for (int r = 1; r < op.a[i].lanes; r++) { Case c = b; const int w = op.a[i].lanes * op.a[i].eb; for (int k = 0; k < w; k++) c.a[i][(k + r * op.a[i].eb) % w] = b.a[i][k]; out.push_back(c); }
    if (op.immArg >= 0) for (int n = op.immLo; n <= op.immHi; n++) if (n != b.n) { Case c = b; c.n = n; out.push_back(c); }
    return out;
}
struct NearSh { volatile size_t at; uint64_t ha[20000], hb[20000]; Result fr; };
static NearSh* NS;
static bool alone(int f, const Case& c) {                  // the call in a process of its own; result in NS->fr
    pid_t p = fork(); int st;
    if (!p) { alarm(10); Result r; run_case(g_ops[f], c, g_ar, r); NS->fr = r; _exit(0); }
    waitpid(p, &st, 0);
    return WIFEXITED(st) && !WEXITSTATUS(st);
}
static void job_near(int f, int tier) {
    const Op& op = g_ops[f];
    if (!NS) NS = (NearSh*)shared_mem(sizeof(NearSh));
    auto C = make_cases(op, 0);
    std::vector<Case> bases;
    const int mid = (op.immLo + op.immHi + 1) / 2;
    for (int k = 0; k < 6; k++) {
        Case c; memset(&c, 0, sizeof c); c.n = op.immArg >= 0 ? mid : 0;
        auto es = elems(op, c); int half = 0;
        for (auto& e : es) if (e.p < c.a[0] + 64) half++;  // elements of the first operand
        for (size_t e = 0; e < es.size(); e++) {
            const bool flt = op.comps[std::min(es[e].comp, op.ncomp - 1)][0] == 'f';
            uint64_t plain = e * 3 + 2; if (flt && es[e].eb == 4) { float x = 1.5f * (e + 1) + 0.25f; uint32_t u; memcpy(&u, &x, 4); plain = u; }
            const bool first = (int)e < half;
            put_elem(es[e], k == 0 ? plain : k == 1 ? (first ? 0 : plain) : k == 2 ? (first ? plain : 0) : k == 3 ? 0 : k == 4 ? (uint64_t)-(int64_t)(e + 1) : edom(op, es[e], 64)[(e * 5 + 11) % 64]);
        }
        bases.push_back(c);
    }
    if (op.immArg >= 0) for (int n : {op.immLo, op.immHi}) { Case c = bases[0]; c.n = n; bases.push_back(c); }
    if (mem_arg(op) >= 0 && op.a[mem_arg(op)].role == 'w') bases.resize(3);
    uint64_t st = 0;
    for (auto& b : bases) {
        auto v = near(op, b, tier);
        if (v.size() > 20000) v.resize(20000);
        if (!alone(f, b)) continue;
        const Result r0 = NS->fr; const uint64_t h0 = rhash(r0);
        std::vector<char> drop(v.size(), 0);
        bool ok = false;
        for (int tries = 0; tries < 12 && !ok; tries++) {
            ok = true;
            for (int pass = 0; pass < 2 && ok; pass++) {
                pid_t p = fork(); int s;
                if (!p) {
                    Result r;
                    if (!pass) {
                        NS->at = v.size(); run_case(op, b, g_ar, r);
                        for (size_t k = 0; k < v.size(); k++) if (!drop[k]) {
                            NS->at = k; run_case(op, v[k], g_ar, r); NS->ha[k] = rhash(r);
                            NS->at = v.size(); run_case(op, b, g_ar, r);
                            if (rhash(r) != h0) failc(5, f, b, v[k], "result after a slightly different call differs from the result of the same call alone", r, r0);
                        }
                        output_check(5, f);
                    } else for (size_t k = v.size(); k-- > 0;) if (!drop[k]) {
                        NS->at = v.size() + 1; const Case& d = C[k % C.size()]; if (O[f].ok[k % C.size()]) run_case(op, d, g_ar, r);
                        NS->at = k; run_case(op, v[k], g_ar, r); NS->hb[k] = rhash(r);
                    }
                    _exit(0);
                }
                waitpid(p, &s, 0); st += v.size(); ncalls += 2 * v.size();
                if (V[g_job].set) _exit(0);
                if (!WIFEXITED(s) || WEXITSTATUS(s)) {
                    const size_t k = NS->at; Result z; memset(&z, 0, sizeof z);
                    if (k < v.size() && !drop[k] && !alone(f, v[k])) { drop[k] = 1; ok = false; continue; }     // fails alone as well: another property's business
                    failc(5, f, k < v.size() ? v[k] : b, b, "a call that succeeds alone ends the process after a history", z, z);
                }
            }
        }
        if (!ok) continue;
        for (size_t k = 0; k < v.size(); k++) if (!drop[k] && NS->ha[k] != NS->hb[k]) {
            if (!alone(f, v[k])) continue;
            const Result w = NS->fr; Result g = w;
            const bool pa = rhash(w) != NS->ha[k];
            { pid_t p = fork(); int s; if (!p) { Result r; run_case(op, pa ? b : C[k % C.size()], g_ar, r); run_case(op, v[k], g_ar, r); NS->fr = r; _exit(0); } waitpid(p, &s, 0); g = NS->fr; }
            failc(5, f, v[k], pa ? b : C[k % C.size()], "the result of a call depends on the calls before it", g, w);
        }
    }
    __atomic_fetch_add(&S->states, st, __ATOMIC_RELAXED);
}
// --- memory operands: the same content elsewhere, other content in the same place, a store repeated after the memory has changed.
//     The places agree in the low 12, 16 or 32 bits of the address.
static uint8_t* g_place[6];
static void run_at(const Op& op, const Case& c, uint8_t* where, Result& r, bool keep) {
    const uint8_t* p[5]; const int m = mem_arg(op);
    for (int i = 0; i < op.nargs; i++) { p[i] = g_ar.v[i]; memcpy(g_ar.v[i], c.a[i], 64); }
    p[m] = where;
    if (!keep) { memset(where - 64, 0xC3, 192); if (op.a[m].role != 'w') memcpy(where, c.a[m], 64); }
    memset(r.b, 0, sizeof r.b);
    alignas(16) uint8_t out[64] = {0};
    op.call(p, c.n, out); ncalls++;
    memcpy(r.b, out, 64);
    if (op.a[m].role == 'w') memcpy(r.b, where - 32, 128);
}
static void job_addr(int f, int tier) {
    const Op& op = g_ops[f]; const int m = mem_arg(op); (void)tier;
    if (!g_place[0]) {
        uint8_t* big = (uint8_t*)mmap(0, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        uint8_t* far = (uint8_t*)mmap((uint8_t*)((uintptr_t)big - (1ull << 32)), 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (big == MAP_FAILED || far == MAP_FAILED) _exit(3);
        const size_t o = 4096 + 512;
        uint8_t* pl[6] = {big + o, big + o + 4096, big + o + 65536, far + o, big + o + 256, big + o + op.mem.eb};
        memcpy(g_place, pl, sizeof pl);
    }
    if (g_place[5] != g_place[0] + op.mem.eb) g_place[5] = g_place[0] + op.mem.eb;
    const int nb = mem_bytes(op); const bool st = op.a[m].role == 'w';
    auto& C = O[f]; const int n = C.c.size();
    uint64_t ns = 0; Result r;
    auto chk = [&](int u, int pu, int k, const Result& r) {
        ns++;
        if (!memcmp(&r, &C.fresh[u], sizeof r)) return;
        char t[120]; snprintf(t, sizeof t, "result depends on earlier calls with other places or contents of the memory operand (place %d)", k); fail(6, f, u, f, pu, t, r);
    };
    for (int u = 0; u < n; u++) if (C.ok[u]) for (int v = 0; v < n; v += (u < 3 ? 1 : 5)) if (C.ok[v]) for (int k = 1; k < 6; k++) {
        run_at(op, C.c[u], g_place[0], r, false); chk(u, v, 0, r);
        run_at(op, C.c[v], g_place[k], r, false); chk(v, u, k, r);
        run_at(op, C.c[u], g_place[0], r, false); chk(u, v, 0, r);
        run_at(op, C.c[u], g_place[k], r, false); chk(u, u, k, r);
    }
    // the caller changes the memory between two equal calls: every byte, and everything but the ends
    for (int u = 0; u < n && u < 40; u++) if (C.ok[u]) for (int b = 0; b <= 2 * nb; b++) {
        uint8_t* p = g_place[b % 4];
        run_at(op, C.c[u], p, r, false); chk(u, u, 0, r);
        auto change = [&] { if (b < nb) p[b] ^= 0x5a; else if (b == 2 * nb) memset(p, 0x77, nb); else { int lo = (b - nb) / 2; for (int i = lo + 1; i < nb - 1 - lo; i++) p[i] ^= 0x21; } };
        if (st) {                                          // the elements stored must come back, the others stay as the caller left them
            uint8_t before[192]; memcpy(before, p - 64, 192);
            change();
            uint8_t expect[192]; memcpy(expect, p - 64, 192);
            for (int i = 0; i < nb; i++) expect[64 + i] = before[64 + i];
            run_at(op, C.c[u], p, r, true); ns++;
            if (memcmp(r.b, expect + 32, 128)) { Result w; memcpy(w.b, expect + 32, 128); failc(6, f, C.c[u], C.c[u], "a store repeated after the caller changed the memory does not store", r, w); }
        } else {
            change();
            Case c = C.c[u]; memcpy(c.a[m], p, 64);
            run_at(op, c, p, r, true);
            Result q; uint8_t* p2 = g_place[(b + 1) % 4]; run_at(op, C.c[(u + 1) % n], p2, q, false); run_at(op, c, p2, q, false); ns++;
            if (memcmp(&r, &q, sizeof r)) failc(6, f, c, C.c[u], "a load repeated after the caller changed the memory returns something else than the same load elsewhere", r, q);
        }
    }
    __atomic_fetch_add(&S->states, ns, __ATOMIC_RELAXED);
    output_check(6, f);
}
// --- the outside world: what a call could ask for besides its arguments. 0: as it is
static int g_world;
extern "C" {
char* getenv(const char* n) noexcept { static char one[] = "1", zero[] = "0"; if (g_world == 1) return one; if (g_world == 2) return zero; if (g_world == 3) return 0;
    for (char** e = environ; e && *e; e++) { size_t k = strlen(n); if (!strncmp(*e, n, k) && (*e)[k] == '=') return *e + k + 1; } return 0; }
char* secure_getenv(const char* n) noexcept { return getenv(n); }
int rand() noexcept { static unsigned x = 1; if (g_world == 2) return 0; x = x * 1103515245u + 12345u + g_world; return x >> 1 & 0x7fffffff; }
long random() noexcept { return rand(); }
time_t time(time_t* t) noexcept { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); time_t r = g_world ? g_world * 1000003 : ts.tv_sec; if (t) *t = r; return r; }
int clock_gettime(clockid_t c, struct timespec* ts) noexcept { if (!g_world) return syscall(SYS_clock_gettime, c, ts); ts->tv_sec = g_world * 1000003; ts->tv_nsec = g_world * 331; return 0; }
clock_t clock() noexcept { return g_world ? g_world * 77777 : 4242; }
pid_t getpid() noexcept { return g_world ? 100 + g_world : syscall(SYS_getpid); }
}
static void job_world(int f) {
    auto& C = O[f]; const int n = C.c.size();
    const auto IMG = g_st.save();
    static const int ERR[] = {0, ERANGE, EDOM, EINTR, ENOMEM, EAGAIN, EINVAL};
    uint64_t st = 0;
    for (int w = 0; w < 18; w++) for (int u = 0; u < n; u++) {
        if (!C.ok[u]) continue;
        uint32_t m0; __asm__ volatile("stmxcsr %0" : "=m"(m0));
        const uint32_t sticky = w < 4 ? 0 : w == 4 ? 0x3f : w < 11 ? 1u << (w - 5) : 0, m = (m0 & ~0x3fu) | sticky;
        Result r; bool ch = false;
        g_st.restore(IMG);                                 // what the library learned from an earlier world is forgotten
        errno = w < 11 ? 0 : ERR[w - 11]; g_world = w < 4 ? w : 0;
        __asm__ volatile("fnclex\n ldmxcsr %0" ::"m"(m) : "memory");
        if (w == 4) { volatile long double a = 1, b = 3; a = a / b; }                 // inexact on the x87 side, too
        run_case(g_ops[f], C.c[u], g_ar, r, &ch);
        __asm__ volatile("fnclex\n ldmxcsr %0" ::"m"(m0) : "memory");
        g_world = 0; ncalls++; st++;
        if (memcmp(&r, &C.fresh[u], sizeof r)) { char t[140]; snprintf(t, sizeof t, "the result depends on %s", w < 4 ? "the environment, the time or a random number" : w < 11 ? "floating-point exception flags raised before the call" : "the value of errno"); fail(7, f, u, lastop, lastcs, t, r); }
        lastop = f; lastcs = u;
    }
    __atomic_fetch_add(&S->states, st, __ATOMIC_RELAXED);
    output_check(7, f);
}
// --- a library loaded in another world (its initialisers ran there) computes the same
static void job_load(int w) {
    std::vector<uint8_t> img; FILE* fi = fopen(g_lib.c_str(), "rb"); uint8_t buf[65536]; size_t k;
    while ((k = fread(buf, 1, sizeof buf, fi))) img.insert(img.end(), buf, buf + k);
    fclose(fi);
    int fd = memfd_create("lib", 0); if (write(fd, img.data(), img.size()) != (ssize_t)img.size()) _exit(3);
    char p[40]; snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
    uint32_t m0; __asm__ volatile("stmxcsr %0" : "=m"(m0));
    const uint32_t m = w == 4 ? m0 | 0x6000 : w == 5 ? m0 | 0x8040 : w == 6 ? m0 | 0x3f : m0;
    g_world = w < 4 ? w : 0; errno = w == 6 ? ERANGE : 0;
    __asm__ volatile("ldmxcsr %0" ::"m"(m) : "memory");
    resolve_syms(p);
    __asm__ volatile("ldmxcsr %0" ::"m"(m0) : "memory");
    g_world = 0; errno = 0;
    if (fpmode() != g_fp) { Result r; memset(&r, 0, sizeof r); fail(8, ACT[0].first, ACT[0].second, -1, -1, "loading the library changed the floating-point control state", r); }
    for (auto& a : ACT) {
        Result r; bool ch = false;
        run_case(g_ops[a.first], O[a.first].c[a.second], g_ar, r, &ch); ncalls++;
        if (memcmp(&r, &O[a.first].fresh[a.second], sizeof r)) fail(8, a.first, a.second, lastop, lastcs, "the result depends on the state of the world when the library was loaded", r);
        lastop = a.first; lastcs = a.second;
    }
    __atomic_fetch_add(&S->states, ACT.size(), __ATOMIC_RELAXED);
    output_check(8, ACT[0].first);
}
// --- every floating-point environment of the caller: unchanged by any call, and without effect on calls that do no float arithmetic
static void job_env(int f, int tier) {
    auto& C = O[f]; const int n = C.c.size();
    const Op& o = g_ops[f];
    bool integer = o.mem.kind != 0 || o.retKind != 'f';
    for (int i = 0; i < o.ncomp && o.mem.kind == 0; i++) if (o.comps[i][0] == 'f') integer = false;
    for (const char* p : {"C11", "C12", "C14"}) if (!strcmp(o.prop, p)) integer = true;   // float lanes that are only moved
    uint64_t st = 0;
    for (uint32_t rc = 0; rc < 4; rc++) for (uint32_t flush = 0; flush < 4; flush++) for (int u = 0; u < n; u++) {
        if (!C.ok[u]) continue;
        uint32_t m0, m, after; uint16_t w0, w, wafter;
        __asm__ volatile("stmxcsr %0\n fnstcw %1" : "=m"(m0), "=m"(w0));
        m = (m0 & ~0xe07fu) | rc << 13 | (flush & 1) << 15 | (flush >> 1) << 6; w = (w0 & ~0x0c00) | rc << 10;
        Result r; bool ch = false;
        __asm__ volatile("ldmxcsr %0\n fldcw %1" ::"m"(m), "m"(w) : "memory");
        run_case(g_ops[f], C.c[u], g_ar, r, &ch);
        __asm__ volatile("stmxcsr %0\n fnstcw %1\n ldmxcsr %2\n fldcw %3" : "=m"(after), "=m"(wafter) : "m"(m0), "m"(w0) : "memory");
        ncalls++; st++;
        if ((after & 0xffc0) != (m & 0xffc0) || wafter != w) { char t[120]; snprintf(t, sizeof t, "the caller's floating-point control state changed (rounding mode %u, flush bits %u)", rc, flush); fail(4, f, u, lastop, lastcs, t, r); }
        if (integer && memcmp(&r, &C.fresh[u], sizeof r)) { char t[120]; snprintf(t, sizeof t, "an integer or move operation depends on the floating-point environment (rounding mode %u, flush bits %u)", rc, flush); fail(4, f, u, lastop, lastcs, t, r); }
        lastop = f; lastcs = u;
    }
    __atomic_fetch_add(&S->states, st, __ATOMIC_RELAXED);
    output_check(4, f); (void)tier;
}
// --- graph of library states: state = writable memory of the library; every call of the table is a transition
static bool seen(uint64_t h) {
    int n = S->nhash;
    for (int i = 0; i < n; i++) if (S->hashes[i] == h) return true;
    if (n < 65536) { S->hashes[n] = h; S->nhash = n + 1; }
    return false;
}
static int MAXST, MAXD;
static void explore(int depth) {
    const uint64_t h0 = g_st.hash();
    size_t i = 0;
    while (i < ACT.size()) {
        // this worker carries on until a call changes the state
        int pf[2]; if (pipe(pf)) _exit(3);
        pid_t p = fork();
        if (!p) {
            close(pf[0]);
            size_t k = i;
            for (; k < ACT.size(); k++) {
                step(3, ACT[k].first, ACT[k].second);
                S->transitions++;
                if (g_st.hash() != h0) break;
            }
            (void)!write(pf[1], &k, sizeof k); close(pf[1]);
            if (k < ACT.size()) {
                uint64_t h = g_st.hash();
                if (!seen(h)) { if (S->nhash <= MAXST && depth < MAXD) explore(depth + 1); else S->truncated++; }
            } else output_check(3, ACT[0].first);
            _exit(0);
        }
        S->forks++;
        close(pf[1]);
        size_t k = ACT.size(); 
        if (read(pf[0], &k, sizeof k) != sizeof k) k = ACT.size();
        close(pf[0]);
        int st; waitpid(p, &st, 0);
        if (V[g_job].set) _exit(0);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) { Result r; memset(&r, 0, sizeof r); fail(3, ACT[i].first, ACT[i].second, -1, -1, "a call that succeeds alone ends the process after a history", r); }
        i = k + 1;
    }
}
static void job_graph(int tier) {
    (void)tier;
    seen(g_st.hash());
    explore(0);
}
int main(int argc, char** argv) {
    std::string out; int tier = 1; std::vector<std::string> rep;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--lib") g_lib = argv[++i];
        else if (a == "--tier") tier = atoi(argv[++i]);
        else if (a == "--out") out = argv[++i];
        else if (a == "--replay") { while (++i < argc) rep.push_back(argv[i]); }
    }
    register_all(); resolve_syms(g_lib.c_str());
    g_st.locate(g_lib);
    MAXST = tier == 2 ? 3000 : tier == 1 ? 60 : 10; MAXD = tier == 2 ? 6 : 3;
    const int N = g_ops.size();
    S = (Shared*)shared_mem(sizeof(Shared));
    O.resize(N);
    struct FJ { int op, cs; };
    std::vector<FJ> fj;
    int absent = 0;
    for (int i = 0; i < N; i++) {
        if (!missing(g_ops[i]).empty()) { absent++; continue; }
        O[i].c = make_cases(g_ops[i], tier == 2 ? 120 : tier == 1 ? 24 : 4);
        O[i].ok.assign(O[i].c.size(), 1);
        O[i].fresh = (Result*)shared_mem(sizeof(Result) * O[i].c.size());
        for (size_t c = 0; c < O[i].c.size(); c++) fj.push_back(FJ{i, (int)c});
    }
    // the oracle: every case alone in a fresh process
    auto fo1 = run_pool(fj.size(), 8, 20, [&](size_t j) { run_case(g_ops[fj[j].op], O[fj[j].op].c[fj[j].cs], g_ar, O[fj[j].op].fresh[fj[j].cs]); });
    uint64_t dropped = 0;
    for (size_t j = 0; j < fj.size(); j++) if (!fo1[j].clean()) { O[fj[j].op].ok[fj[j].cs] = 0; dropped++; }   // another property's business
    for (int i = 0; i < N; i++) for (size_t c = 0; c < O[i].c.size(); c++) if (O[i].ok[c]) ACT.push_back({i, (int)c});
    struct Job { int mode, f; };
    std::vector<Job> jobs;
    jobs.push_back(Job{3, 0});
    for (int w = 0; w < 7; w++) jobs.push_back(Job{8, w});
    for (int m : {4, 7, 2, 5, 1, 6, 0}) for (int i = 0; i < N; i++) if (usable(i) && (m != 6 || mem_arg(g_ops[i]) >= 0)) jobs.push_back(Job{m, i});
    V = (Viol*)shared_mem(sizeof(Viol) * jobs.size());
    if (!rep.empty()) { std::vector<Job> k; for (auto& j : jobs) if (j.mode == atoi(rep[0].c_str()) && (j.mode == 3 || rep[1] == g_ops[j.f].name)) k.push_back(j); jobs = k; }
    const unsigned LIM = tier == 2 ? 3000 : 300;
    auto oc = run_pool(jobs.size(), 8, LIM, [&](size_t j) {
        g_job = j; begin();
        switch (jobs[j].mode) { case 0: job_pairs(jobs[j].f, tier); break; case 1: job_self(jobs[j].f, tier); break; case 2: job_repeat(jobs[j].f, tier); break; case 4: job_env(jobs[j].f, tier); break; case 7: job_world(jobs[j].f); break; case 8: job_load(jobs[j].f); break; case 5: job_near(jobs[j].f, tier); break; case 6: job_addr(jobs[j].f, tier); break; default: job_graph(tier); }
        __atomic_fetch_add(&S->calls, ncalls, __ATOMIC_RELAXED);
    });
    FILE* fo = out.empty() ? stdout : fopen(out.c_str(), "w");
    int nv = 0;
    std::map<int, int> per;
    uint64_t done = 0;
    for (size_t j = 0; j < jobs.size(); j++) {
        bool crash = !oc[j].clean() && !oc[j].timeout();
        if (oc[j].clean() && !V[j].set) done++;
        if (!V[j].set && !crash) continue;
        const Viol& v = V[j]; const int op = v.set ? v.op : jobs[j].f;
        nv++;
        if (!rep.empty()) { printf("%s: %s\n", g_ops[op].name, v.set ? v.what : why(oc[j]).c_str()); continue; }
        if (per[op]++) continue;
        std::string w = v.set ? v.what : "a history of calls that succeed alone " + why(oc[j]);
        std::string note = v.set && v.cs < 0 ? "call before: " + case_json(g_ops[op], v.pc) + (g_ops[op].immArg >= 0 ? " n " + std::to_string(v.pc.n) : "") : v.set && v.prevop >= 0 ? std::string("last call before: ") + g_ops[v.prevop].name + " " + case_json(g_ops[v.prevop], O[v.prevop].c[v.prevcs]) : "";
        bool st = mem_arg(g_ops[op]) >= 0 && g_ops[op].a[mem_arg(g_ops[op])].role == 'w';
        int rb = st ? 128 : g_ops[op].retEb * g_ops[op].retLanes;
        fprintf(fo, "{\"violation\":{\"op\":\"%s\",\"kind\":\"history\",\"what\":\"%s\",\"mode\":%d,\"job\":\"%s\",\"args\":%s,\"n\":%d,\"got\":\"%s\",\"want\":\"%s\",\"note\":\"%s\"}}\n", g_ops[op].name, jesc(w).c_str(), jobs[j].mode, g_ops[jobs[j].f].name,
                v.set ? case_json(g_ops[op], v.cs < 0 ? v.c : O[op].c[v.cs]).c_str() : "[]", v.set ? (v.cs < 0 ? v.c : O[op].c[v.cs]).n : 0, v.set ? hexn(v.got.b, rb).c_str() : "", v.set ? hexn(v.want.b, rb).c_str() : "", jesc(note).c_str());
    }
    if (!rep.empty()) return nv ? 1 : 0;
    fprintf(fo, "{\"total\":{\"tuples\":%llu,\"calls\":%llu,\"libstates\":%d,\"transitions\":%llu,\"statebytes\":%zu,\"cases\":%zu,\"dropped\":%llu,\"absent\":%d,\"truncated\":%llu,\"jobs\":%llu,\"distinct\":%d}}\n",
            (unsigned long long)S->states, (unsigned long long)S->calls, S->nhash, (unsigned long long)S->transitions, g_st.bytes(), fj.size(), (unsigned long long)dropped, absent,
            (unsigned long long)S->truncated, (unsigned long long)done, N);
    fclose(fo);
    return 0;
}
