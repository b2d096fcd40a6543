// C20: systematic exploration of two-thread schedules of the compiled library; C25 (--reentrant): of nested calls in one thread.
//   main_sched --lib LIB --tsanlib LIB --tier T [--reentrant] --out FILE
//   main_sched --lib LIB --tsanlib LIB --tier T --replay PART F G       exit 1 when the job fails
// Part 0: the shipped build.  Thread A is single-stepped through f(u); before every instruction thread B runs g(v) completely.
//         If a run of B leaves the library's writable memory as it was, all single-preemption schedules are equivalent to that one
//         run; if not, each preemption point gets a run of its own from the initial state.
// Part 1: an access-instrumented build.  Accesses to memory both threads can reach are recorded; call pairs without a conflicting
//         access have one schedule up to equivalence, pairs with one are run under every schedule with at most two preemptions
//         at those accesses, with a happens-before race check.
#include "cases.hpp"
#include "pool.hpp"
#include "tsan_stubs.hpp"
#include <atomic>
#include <map>
#include <set>
#include <pthread.h>
#include <sched.h>
#include <errno.h>
#include <fcntl.h>
#include <ucontext.h>
#include <dirent.h>
#include <sys/resource.h>

static std::string g_lib, g_ts;
static LibState g_st;
struct Rec { int set; int u, v; char what[200]; Result got, want; };
struct Cnt { volatile uint64_t points, runs, schedules, dirty, pairs, conflicts, accesses, locs; };
static inline void add(volatile uint64_t& x, uint64_t n) { __atomic_fetch_add(&x, n, __ATOMIC_RELAXED); }
static Cnt* S; static Rec* V; static size_t g_job;
static void report(int u, int v, const char* what, const Result* got = 0, const Result* want = 0) {
    Rec& r = V[g_job];
    if (!r.set) { r.u = u; r.v = v; snprintf(r.what, sizeof r.what, "%s", what); if (got) r.got = *got; if (want) r.want = *want; r.set = 1; }
    _exit(0);
}
// ---- one side of a pair
struct alignas(64) Side {
    const Op* op; Case c; uint8_t* mem; alignas(64) uint8_t v[5][64]; alignas(64) uint8_t out[64];
    void prep() { memset(out, 0, 64); for (int i = 0; i < op->nargs; i++) memcpy(v[i], c.a[i], 64); }
    __attribute__((noinline)) void call() {
        const int m = mem_arg(*op);
        const uint8_t* p[5]; for (int i = 0; i < 5; i++) p[i] = i == m ? mem : v[i];
        op->call(p, c.n, out);
    }
};
static bool is_store(const Op& o) { int m = mem_arg(o); return m >= 0 && o.a[m].role == 'w'; }
static bool is_load(const Op& o) { int m = mem_arg(o); return m >= 0 && o.a[m].role == 'p'; }
alignas(64) static uint8_t M[640], MX[640];              // shared memory of the pair, and what it must contain afterwards
static Side A, B, C3;                                    // C3: third thread of part 1
static Result solo(Side& s, uint8_t* where) {            // alone; where = operand memory
    Result r; memset(&r, 0, sizeof r);
    s.mem = where; s.prep(); s.call();
    memcpy(r.b, s.out, 64);
    return r;
}
// operand placement: stores are adjacent (variant 0: B after A, 1: B before A), a load next to a store likewise, two loads share
static void place(int variant, uint8_t*& a, uint8_t*& b) {
    a = M + 256; b = M + 256;
    if (mem_arg(*A.op) < 0 || mem_arg(*B.op) < 0) return;
    if (is_load(*A.op) && is_load(*B.op)) return;
    b = variant ? a - mem_bytes(*B.op) : a + mem_bytes(*A.op);
}
static void fill(uint8_t* m, uint8_t* a, uint8_t* b) {
    memset(m, 0xC3, 640);
    if (is_load(*A.op)) memcpy(m + (a - M), A.c.a[mem_arg(*A.op)], mem_bytes(*A.op));
    if (is_load(*B.op)) memcpy(m + (b - M), B.c.a[mem_arg(*B.op)], mem_bytes(*B.op));
}
// ================================================================ C25: allocations made during a call
static volatile long al_n, al_fail; static volatile bool al_on;     // al_fail: -1 all fail, 0 none, k the k-th
static volatile long al_live; static volatile bool al_cnt;          // blocks in use
static inline void* al_keep(void* p) { if (al_cnt && p) al_live++; return p; }
static inline bool al_deny() { if (!al_on) return false; long k = ++al_n; if (al_fail == -1 || al_fail == k) { errno = ENOMEM; return true; } return false; }
extern "C" {
void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
void* calloc(size_t a, size_t b) noexcept { return al_deny() ? 0 : al_keep(__libc_calloc(a, b)); }
void* realloc(void* p, size_t n) noexcept { if (al_deny()) return 0; void* q = __libc_realloc(p, n); if (al_cnt && !p && q) al_live++; if (al_cnt && p && !q && !n) al_live--; return q; }
void* memalign(size_t a, size_t n) noexcept { return al_deny() ? 0 : al_keep(__libc_memalign(a, n)); }
void* aligned_alloc(size_t a, size_t n) noexcept { return al_deny() ? 0 : al_keep(__libc_memalign(a, n)); }
int posix_memalign(void** p, size_t a, size_t n) noexcept { if (al_deny()) return ENOMEM; *p = al_keep(__libc_memalign(a, n)); return *p ? 0 : ENOMEM; }
}
// ================================================================ part 0
static std::atomic<int> req{0}, ack{0}; static std::atomic<bool> quit{false};
static volatile int inA, mode_single; static volatile long kstep, kwant; static volatile bool b_bad, b_dirty; static uint64_t st0;
static uintptr_t exe_lo, exe_hi;
static bool g_reent; static int ncpu_spin; static volatile bool blocked; static uint64_t nruns;
static inline void spin_wait(std::atomic<int>& x, int want) { int n = 0; while (x.load(std::memory_order_acquire) != want) { if (++n > ncpu_spin) { sched_yield(); } else __builtin_ia32_pause(); } }
static Result soloA, soloB;
static bool b_ok() { return !memcmp(B.out, soloB.b, 64); }
static void* b_main(void*) {
    int n = 0;
    for (;;) {
        int w = 0;
        while (req.load(std::memory_order_acquire) == n) { if (quit) return 0; if (++w > ncpu_spin) sched_yield(); else __builtin_ia32_pause(); }
        n = req.load();
        B.prep(); B.call();
        ack.store(n, std::memory_order_release);
    }
}
struct AllB { std::vector<Side*> s; const Result* fresh; volatile int bad; } ALLB;      // one call of every intrinsic, run in a row
static bool g_all;
alignas(64) static uint8_t MB[640];
static void run_all() {
    for (size_t g = 0; g < ALLB.s.size(); g++) {
        Side& b = *ALLB.s[g]; const int m = mem_arg(*b.op);
        b.mem = MB + 256;
        if (m >= 0) { memset(MB + 192, 0xC3, 192); if (is_load(*b.op)) memcpy(b.mem, b.c.a[m], 64); }
        b.prep(); b.call(); nruns++;
        Result r; memcpy(r.b, b.out, 64); memset(r.b + 64, 0, 64);
        if (is_store(*b.op)) memcpy(r.b, MB + 224, 128);
        if (memcmp(&r, &ALLB.fresh[g], sizeof r) && !ALLB.bad) ALLB.bad = (int)g + 1;
    }
}
static void run_b() {
    if (g_reent && g_all) { run_all(); return; }
    if (g_reent) { nruns++; B.prep(); B.call(); return; }    // in the signal handler that interrupted A
                                      // gives up after a while: then B waits for something A holds, and goes on later
    if (ack.load() != req.load()) return;
    int n = req.load() + 1; req.store(n, std::memory_order_release); nruns++;
    struct timespec t0, t; clock_gettime(CLOCK_MONOTONIC, &t0);
    for (int k = 0; ack.load(std::memory_order_acquire) != n; k++) {
        if (k > ncpu_spin) sched_yield(); else __builtin_ia32_pause();
        if ((k & 255) == 255) { clock_gettime(CLOCK_MONOTONIC, &t); if ((t.tv_sec - t0.tv_sec) * 1000 + (t.tv_nsec - t0.tv_nsec) / 1000000 > 10) { blocked = true; return; } }
    }
}
static void settle() { if (blocked) { spin_wait(ack, req.load()); if (!b_ok()) b_bad = true; blocked = false; } }
static void on_trap(int, siginfo_t*, void* u) {
    ucontext_t* c = (ucontext_t*)u;
    uintptr_t ip = c->uc_mcontext.gregs[REG_RIP];
    if (!inA) { c->uc_mcontext.gregs[REG_EFL] &= ~0x100ll; return; }
    if (ip >= exe_lo && ip < exe_hi) return;               // harness code around the call
    kstep++;
    if (mode_single) {
        if (kstep == kwant) { run_b(); if (!blocked && !b_ok()) b_bad = true; c->uc_mcontext.gregs[REG_EFL] &= ~0x100ll; }
        return;
    }
    uint64_t h = g_st.hash();
    if (blocked) { if (ack.load() != req.load()) return; blocked = false; if (!b_ok()) b_bad = true; h = g_st.hash(); }
    run_b();
    if (blocked) return;
    if (!b_ok()) b_bad = true;
    if (g_st.hash() != h) b_dirty = true;
}
static void step_run() {
    inA = 1; kstep = 0;
    __asm__ volatile("pushfq; orq $0x100,(%%rsp); popfq" ::: "cc", "memory");
    A.call();
    __asm__ volatile("pushfq; andq $~0x100,(%%rsp); popfq" ::: "cc", "memory");
    inA = 0;
    settle();
}
static int exe_cb(dl_phdr_info* i, size_t, void*) {
    if (exe_lo) return 1;                                  // first entry is the program itself
    for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X)) { exe_lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; exe_hi = exe_lo + i->dlpi_phdr[k].p_memsz; }
    return 1;
}
static void check_pair(int u, int v, uint8_t* pa, uint8_t* pb, const char* how) {
    (void)pa; (void)pb;
    char t[160];
    Result g; memset(&g, 0, sizeof g);
    if (b_bad) { memcpy(g.b, B.out, 64); snprintf(t, sizeof t, g_reent ? "a call from a signal handler that interrupts %s returns a different result (%s)" : "a call that runs while %s is in progress in another thread returns a different result (%s)", A.op->name, how); report(u, v, t, &g, &soloB); }
    if (memcmp(A.out, soloA.b, 64)) { memcpy(g.b, A.out, 64); snprintf(t, sizeof t, g_reent ? "result changes when a signal handler runs %s during the call (%s)" : "result changes when another thread runs %s during the call (%s)", B.op->name, how); report(u, v, t, &g, &soloA); }
    if (memcmp(M, MX, 640)) { snprintf(t, sizeof t, g_reent ? "memory differs when a signal handler runs %s on an adjacent buffer during the call (%s)" : "memory differs when another thread runs %s on an adjacent buffer during the call (%s)", B.op->name, how); report(u, v, t); }
}
static void job_step(int f, int g, const std::vector<std::pair<int, int>>& cs, const std::vector<Case>& cf, const std::vector<Case>& cg) {
    A.op = &g_ops[f]; B.op = &g_ops[g];
    dl_iterate_phdr(exe_cb, 0);
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_size = 1 << 16; ss.ss_sp = malloc(ss.ss_size); sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_trap; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; sigaction(SIGTRAP, &sa, 0);
    const int variants = mem_arg(*A.op) >= 0 && mem_arg(*B.op) >= 0 && !(is_load(*A.op) && is_load(*B.op)) ? 2 : 1;
    struct Sh { Result a, b; uint8_t mx[640]; volatile long n; volatile bool dirty; };
    Sh* sh = (Sh*)shared_mem(sizeof(Sh));
    // the parent never calls the library, so every child starts from its initial state
    auto child = [&](const std::function<void()>& fn) {   // 0 done, 1 did not return, 2 ended abnormally
        pid_t c = fork();
        if (!c) { alarm(g_reent ? 15 : 60); fn(); _exit(0); }
        int st = 0; if (c < 0 || waitpid(c, &st, 0) != c) _exit(3);
        if (V[g_job].set) _exit(0);
        return WIFEXITED(st) && !WEXITSTATUS(st) ? 0 : WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? 1 : 2;
    };
    int np = 0;
    for (auto& uv : cs) { np++; for (int var = 0; var < variants; var++) {
        A.c = cf[uv.first]; B.c = cg[uv.second];
        uint8_t *pa, *pb; place(var, pa, pb);
        if (is_load(*A.op) && is_load(*B.op)) for (int i = 0; i < B.op->nargs; i++) if (B.op->a[i].role == 'p') for (int j = 0; j < A.op->nargs; j++) if (A.op->a[j].role == 'p') memcpy(B.c.a[i], A.c.a[j], 64);
        bool ok = !child([&] { fill(M, pa, pb); sh->a = solo(A, pa); });
        ok = ok && !child([&] { fill(M, pa, pb); sh->b = solo(B, pb); });
        ok = ok && !child([&] { fill(M, pa, pb); solo(A, pa); solo(B, pb); memcpy(sh->mx, M, 640); });
        if (!ok) continue;
        soloA = sh->a; soloB = sh->b; memcpy(MX, sh->mx, 640);
        auto run1 = [&](long k) {                          // k 0: B before every instruction
            pthread_t th; if (!g_reent) pthread_create(&th, 0, b_main, 0);
            A.mem = pa; B.mem = pb;
            char how[60] = "before every instruction"; if (k) snprintf(how, sizeof how, "before instruction %ld of the call", k);
            fill(M, pa, pb); A.prep(); b_bad = b_dirty = false; mode_single = k != 0; kwant = k;
            step_run();
            if (!k) { sh->n = kstep; sh->dirty = b_dirty; add(S->points, kstep); add(S->schedules, kstep); add(S->pairs, 1); if (!kstep) { B.prep(); B.call(); } }
            add(S->runs, nruns); nruns = 0;
            check_pair(uv.first, uv.second, pa, pb, how);
            if (!k && variants == 2 && !b_dirty && np <= 3)    // B writes next to A's operand: a run of its own per preemption point
                for (long q = 1; q <= sh->n && q <= 400; q++) {
                    fill(M, pa, pb); A.prep(); b_bad = false; mode_single = 1; kwant = q; step_run();
                    snprintf(how, sizeof how, "before instruction %ld of the call", q);
                    check_pair(uv.first, uv.second, pa, pb, how);
                    add(S->schedules, 1);
                }
        };
        sh->n = 0; sh->dirty = false;
        const char* ab = g_reent ? "the process ends abnormally when a signal handler runs a call in between" : "the process ends abnormally when another thread runs a call in between";
        int e = child([&] { run1(0); });
        if (e == 2) report(uv.first, uv.second, ab);
        if (e == 1 && g_reent) report(uv.first, uv.second, "the calls do not return when a signal handler runs a call in between");
        if (e) return;                                     // did not return in time: left to part 1
        if (!sh->dirty) continue;
        add(S->dirty, 1);
        const long n = sh->n;
        for (long k = 1; k <= n && k <= 3000; k++) {       // B's run leaves a trace: one process per preemption point
            e = child([&] { run1(k); });
            if (e == 2) report(uv.first, uv.second, ab);
            if (e == 1 && g_reent) report(uv.first, uv.second, "the calls do not return when a signal handler runs a call in between");
            if (e) return;
            add(S->schedules, 1);
        }
    } }
}
// no further address space, file descriptor or thread
static void no_resources() {
    volatile char t[65536]; for (size_t i = 0; i < sizeof t; i += 512) t[i] = 0;
    struct rlimit r = {4096, 4096}; setrlimit(RLIMIT_AS, &r);
    r.rlim_cur = r.rlim_max = 0; setrlimit(RLIMIT_NOFILE, &r);
}
static long entries(const char* d) { long n = 0; DIR* p = opendir(d); if (!p) return 1000000; while (readdir(p)) n++; closedir(p); return n; }
struct Held { long blocks, fds, threads, pages; uint64_t mask; };
static Held held() {
    Held h; h.blocks = al_live; h.fds = entries("/proc/self/fd"); h.threads = entries("/proc/self/task"); h.pages = 0;
    char b[64] = {0}; int f = open("/proc/self/statm", O_RDONLY); if (f >= 0) { if (read(f, b, sizeof b - 1) > 0) h.pages = atol(b); close(f); }
    sigset_t s; sigemptyset(&s); sigprocmask(SIG_BLOCK, 0, &s); memcpy(&h.mask, &s, 8);
    return h;
}
static ucontext_t uc_main, uc_call;
static void on_small() { A.call(); }
enum { SMALL = 16384 };
// repeated calls hold no more than the first few, and a call fits on the small stack a signal handler may have
static void job_hold(int f, const std::vector<int>& cs, const std::vector<Case>& cf, int rounds) {
    A.op = &g_ops[f]; B.op = A.op; B.c = cf[0];
    struct Sh { Result r, q; uint8_t m[640], n[640]; char t[160]; volatile int u, st; }; Sh* sh = (Sh*)shared_mem(sizeof(Sh));
    uint8_t* pa = M + 256;
    pid_t c = fork(); int st = 0;
    if (!c) {
        alarm(100); int nul = open("/dev/null", O_WRONLY); dup2(nul, 2);
        al_cnt = true;
        auto pass = [&] { for (int u : cs) { A.c = cf[u]; sh->u = u; fill(M, pa, pa); A.mem = pa; A.prep(); A.call(); } };
        pass(); sh->st = 1;
        for (int k = 0; k < 4; k++) pass();
        const Held a = held();
        for (int k = 0; k < rounds; k++) pass();
        const Held b = held(); const long lim = std::max(32l, rounds * (long)cs.size() / 4);
        auto bad = [&](long x, long y, long lim, const char* w) { if (y - x > lim && !sh->t[0]) snprintf(sh->t, sizeof sh->t, "%d equal rounds of %zu calls leave %ld more %s in use", rounds, cs.size(), y - x, w); };
        bad(a.fds, b.fds, 0, "file descriptors"); bad(a.threads, b.threads, 0, "threads"); bad(a.blocks, b.blocks, 32, "memory blocks"); bad(a.pages, b.pages, lim, "pages");
        if (a.mask != b.mask) snprintf(sh->t, sizeof sh->t, "a call changes the signal mask");
        sh->st = 2;
        _exit(0);
    }
    if (c < 0 || waitpid(c, &st, 0) != c) _exit(3);
    add(S->schedules, rounds); add(S->runs, rounds * cs.size());
    if (sh->t[0]) report(sh->u, sh->u, sh->t);
    if (st && sh->st == 1) report(sh->u, sh->u, "repeating a call that has returned before ends the process or does not return");
    if (st) return;
    for (int u : cs) {
        A.c = cf[u]; sh->u = 0;
        c = fork();
        if (!c) {
            alarm(20);
            fill(M, pa, pa); A.mem = pa; A.prep(); A.call(); memcpy(sh->r.b, A.out, 64); memcpy(sh->m, M, 640);   // binds what is bound at the first call
            uint8_t* m = (uint8_t*)mmap(0, SMALL + (1 << 20), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            if (m == MAP_FAILED || mprotect(m + (1 << 20), SMALL, PROT_READ | PROT_WRITE)) _exit(3);
            getcontext(&uc_call); uc_call.uc_stack.ss_sp = m + (1 << 20); uc_call.uc_stack.ss_size = SMALL; uc_call.uc_link = &uc_main;
            makecontext(&uc_call, on_small, 0);
            fill(M, pa, pa); A.prep(); sh->u = 1;
            swapcontext(&uc_main, &uc_call);
            memcpy(sh->q.b, A.out, 64); memcpy(sh->n, M, 640);
            _exit(0);
        }
        if (c < 0 || waitpid(c, &st, 0) != c) _exit(3);
        add(S->schedules, 1); add(S->runs, 2);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 3) continue;
        if (st && sh->u) { char t[100]; snprintf(t, sizeof t, "the call does not return on a stack of %d bytes", (int)SMALL); report(u, u, t); }
        if (!st && (memcmp(&sh->r, &sh->q, sizeof(Result)) || memcmp(sh->m, sh->n, 640))) report(u, u, "result changes when the call runs on a small stack", &sh->q, &sh->r);
    }
}
// every case with no memory to be had, and with each of its allocations failing on its own; an abnormal end or another result is a violation
static void job_nomem(int f, const std::vector<int>& cs, const std::vector<Case>& cf) {
    A.op = &g_ops[f]; B.op = A.op; B.c = cf[0];
    struct Sh { Result r; uint8_t m[640]; volatile long n; }; Sh* sh = (Sh*)shared_mem(sizeof(Sh) * 2);
    for (int u : cs) {
        A.c = cf[u]; uint8_t* pa = M + 256;
        // fail: 0 none, -1 all, -2 all after a first call has had what it wanted (a cache does not help), k the k-th
        auto go = [&](long fail, Sh* o) {
            pid_t c = fork(); int st = 0;
            if (!c) {
                alarm(20); int nul = open("/dev/null", O_WRONLY); dup2(nul, 2);
                if (fail == -2) { fill(M, pa, pa); solo(A, pa); }
                fill(M, pa, pa); A.mem = pa; A.prep();
                if (fail < 0) no_resources();
                al_n = 0; al_fail = fail == -2 ? -1 : fail; al_on = true; A.call(); al_on = false;
                memset(&o->r, 0, sizeof o->r); memcpy(o->r.b, A.out, 64); memcpy(o->m, M, 640); o->n = al_n;
                _exit(0);
            }
            if (c < 0 || waitpid(c, &st, 0) != c) _exit(3);
            add(S->schedules, 1); add(S->runs, 1);
            return st;
        };
        if (go(0, sh)) continue;
        add(S->points, 1); add(S->pairs, 1);
        const long n = sh->n;
        for (long k = -2; k <= n && k <= 64; k++) {
            if (!k || (k > 0 && n < 2)) continue;
            int st = go(k, sh + 1); char t[160];
            if (st) { snprintf(t, sizeof t, "the call does not return its result when %s", k < 0 ? "no memory can be allocated" : "one of its memory allocations fails"); report(u, u, t); }
            if (memcmp(&sh[1].r, &sh->r, sizeof(Result)) || memcmp(sh[1].m, sh->m, 640)) { snprintf(t, sizeof t, "result changes when %s", k < 0 ? "no memory can be allocated" : "one of its memory allocations fails"); report(u, u, t, &sh[1].r, &sh->r); }
        }
    }
}
// A interrupted before every instruction by a call of every intrinsic in a row
static void job_all(int f, const std::vector<int>& cs, const std::vector<Case>& cf) {
    A.op = &g_ops[f]; B.op = A.op; B.c = cf[0];
    dl_iterate_phdr(exe_cb, 0);
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_size = 1 << 16; ss.ss_sp = malloc(ss.ss_size); sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_trap; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; sigaction(SIGTRAP, &sa, 0);
    Result* sh = (Result*)shared_mem(sizeof(Result) + 640);
    g_all = true;
    for (int u : cs) {
        A.c = cf[u]; uint8_t* pa = M + 256;
        pid_t c = fork(); int st;
        if (!c) { alarm(20); fill(M, pa, pa); sh[0] = solo(A, pa); memcpy(sh + 1, M, 640); _exit(0); }
        waitpid(c, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) continue;
        soloA = sh[0]; memcpy(MX, sh + 1, 640);
        c = fork();
        if (!c) {
            alarm(60);
            fill(M, pa, pa); A.mem = pa; A.prep(); mode_single = 0; b_bad = false; ALLB.bad = 0;
            step_run();
            add(S->points, kstep); add(S->schedules, kstep * ALLB.s.size()); add(S->runs, nruns); add(S->pairs, ALLB.s.size());
            char t[180]; Result g; memset(&g, 0, sizeof g);
            if (ALLB.bad) { snprintf(t, sizeof t, "a call of %s from a signal handler that interrupts %s returns a different result", ALLB.s[ALLB.bad - 1]->op->name, A.op->name); report(u, u, t); }
            memcpy(g.b, A.out, 64);
            if (memcmp(A.out, soloA.b, 64)) report(u, u, "result changes when a signal handler calls the intrinsics during the call", &g, &soloA);
            if (memcmp(M, MX, 640)) report(u, u, "memory differs when a signal handler calls the intrinsics during the call");
            _exit(0);
        }
        waitpid(c, &st, 0);
        if (V[g_job].set) _exit(0);
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) report(u, u, "the calls do not return when a signal handler calls the intrinsics during the call");
        if (!WIFEXITED(st) || WEXITSTATUS(st)) report(u, u, "the process ends abnormally when a signal handler calls the intrinsics during the call");
    }
}
// ================================================================ part 1
struct Acc { uintptr_t p; int n, k; };
static __thread std::vector<Acc>* rec; static __thread int me; static __thread uintptr_t slo, shi;
struct Blk { uintptr_t p; size_t n; };
static __thread Blk blk[64]; static __thread int nblk; static __thread int in_call;
extern "C" void* __libc_malloc(size_t); extern "C" void __libc_free(void*);
extern "C" void* malloc(size_t n) noexcept { if (al_deny()) return 0; void* p = al_keep(__libc_malloc(n)); if (in_call && nblk < 64) blk[nblk++] = Blk{(uintptr_t)p, n}; return p; }
extern "C" void free(void* p) { if (in_call) for (int i = 0; i < nblk; i++) if (blk[i].p == (uintptr_t)p) { blk[i] = blk[--nblk]; break; } if (al_cnt && p) al_live--; __libc_free(p); }
static uintptr_t tlo, thi; static __thread uintptr_t tls_lo, tls_hi;
static void thread_ranges() {
    pthread_attr_t at; void* a; size_t n; pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &a, &n); pthread_attr_destroy(&at);
    slo = (uintptr_t)a; shi = slo + n;                     // glibc puts static TLS of the thread in the same mapping
}
static bool in_tls(uintptr_t p) {
    struct Q { uintptr_t p; bool in; } q{p, false};
    dl_iterate_phdr([](dl_phdr_info* i, size_t, void* d) { Q* q = (Q*)d; for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data && q->p >= (uintptr_t)i->dlpi_tls_data && q->p < (uintptr_t)i->dlpi_tls_data + i->dlpi_phdr[k].p_memsz) q->in = true; return 0; }, &q);
    return q.in;
}
static bool shared_addr(uintptr_t p) {
    if (p >= slo && p < shi) return false;
    for (Side* s : {&A, &B, &C3}) if (p >= (uintptr_t)s && p < (uintptr_t)(s + 1)) return false;
    if (p >= (uintptr_t)M && p < (uintptr_t)M + sizeof M) return false;
    for (int i = 0; i < nblk; i++) if (p >= blk[i].p && p < blk[i].p + blk[i].n) return false;
    if (in_tls(p)) return false;
    return true;
}
// memory of the pair's operands counts too, through M: disjoint by construction, checked by value afterwards
static void record_hook(const void* p, size_t n, int k) {
    if (!in_call) return;
    int s = in_call; in_call = 0;
    __atomic_fetch_add(&S->accesses, 1, __ATOMIC_RELAXED);
    if (shared_addr((uintptr_t)p)) rec->push_back(Acc{(uintptr_t)p, (int)n, k});
    in_call = s;
}
struct Foot { std::vector<Acc> a; };
static Foot merge(std::vector<Acc>& v) {
    std::map<std::pair<uintptr_t, int>, int> m;
    for (auto& x : v) for (int b = 0; b < x.n; b++) m[{x.p + b, x.k}] = 1;
    Foot f; for (auto& e : m) f.a.push_back(Acc{e.first.first, 1, e.first.second});
    return f;
}
// ---- serialised execution of two or three threads; a switch is possible before every conflicting access
typedef int (*mtx_fn)(pthread_mutex_t*);
enum { NT = 3 };
static int nthr = 2;
static pthread_mutex_t bm = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t bc = PTHREAD_COND_INITIALIZER;
static int turn; static bool fin[NT]; static bool ctl; static std::vector<int> plan; static std::vector<uintptr_t>* conf;
struct Run { int npoints; int who[512]; int alt[512]; int forced[512]; int race; char where[120]; Result r[NT]; uint8_t m[640]; int done, stuck; int nev; struct Ev { int who, pt, k, n; uintptr_t a; } ev[3000]; };   // alt: the other threads that could run (bits)
static Run* R;
static void switch_to(int t) { pthread_mutex_lock(&bm); turn = t; pthread_cond_broadcast(&bc); while (turn != me) pthread_cond_wait(&bc, &bm); pthread_mutex_unlock(&bm); }
// happens-before: vector clocks, release/acquire as the memory orders say
typedef unsigned VC[NT];
static VC vc[NT] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, pend[NT], relf[NT];
struct SyncVar { VC c; }; static std::map<uintptr_t, SyncVar>* sv;
struct Last { VC w, r, aw, ar; }; static std::map<uintptr_t, Last>* la;
static void join(VC d, const VC s) { for (int i = 0; i < NT; i++) d[i] = std::max(d[i], s[i]); }
static void sync_on(uintptr_t p) { auto& s = (*sv)[p]; join(s.c, vc[me]); join(vc[me], s.c); vc[me][me]++; }
static void sync_hook(const void* p, int what, int mo) {
    if (!in_call || !ctl) return;
    int s = in_call; in_call = 0;
    const bool acq = mo == 1 || mo == 2 || mo >= 4, rel = mo >= 3;
    if (!p) { if (acq) join(vc[me], pend[me]); if (rel) { memcpy(relf[me], vc[me], sizeof(VC)); vc[me][me]++; } }
    else {
        auto& v = (*sv)[(uintptr_t)p];
        if (what & 1) join(acq ? vc[me] : pend[me], v.c);
        if (what & 2) { if (!(what & 1)) memset(v.c, 0, sizeof(VC)); join(v.c, rel ? vc[me] : relf[me]); vc[me][me]++; }
    }
    in_call = s;
}
static LibState g_tst;                                  // writable memory of the instrumented library
static bool is_conf(uintptr_t p, size_t n, int k) { if (k != ACC_R || g_tst.contains((const void*)p)) return true; for (size_t i = 0; i < n; i++) if (std::binary_search(conf->begin(), conf->end(), p + i)) return true; return false; }
static void yield_other();
static int others() { int m = 0; for (int t = 0; t < nthr; t++) if (t != me && !fin[t]) m |= 1 << t; return m; }
static int decide(bool forced) {                           // scheduling point: the plan says who goes on; forced: the running thread cannot
    int i = R->npoints, m = others();
    if (i >= 500) return forced ? __builtin_ctz(m) : me;
    int d = forced ? __builtin_ctz(m) : me;
    int t = (size_t)i < plan.size() ? plan[i] : d;
    if (t != me && !(m >> t & 1)) t = d;
    R->who[i] = t; R->alt[i] = forced ? m & ~(1 << t) : t == me ? m : 0; R->forced[i] = forced; R->npoints = i + 1;
    return t;
}
// Races on plain memory are found by the happens-before check in any schedule of the synchronisation operations, so those are the
// scheduling points, and only the first few plain accesses of each thread besides.
static int nplain[NT];
static int stuck;
static void note(uintptr_t a, int n, int k, int pt) { stuck = 0; if (R->nev < 3000) R->ev[R->nev++] = Run::Ev{me, pt, k, n, a}; }
static int point(uintptr_t a = 0, int k = ACC_A) {         // index of the decision taken, or -1
    static std::map<uintptr_t, int>* cnt; if (!cnt) cnt = new std::map<uintptr_t, int>;
    static int last = -1; if (last != me) { last = me; cnt->clear(); }
    if (k == ACC_W && a) cnt->clear();
    if (++(*cnt)[a] > 60 && (size_t)R->npoints >= plan.size()) { cnt->clear(); yield_other(); return -1; }   // spinning on another thread
    if ((k == ACC_R || k == ACC_W) && ++nplain[me] > 12) return -1;
    const int i = R->npoints; int t = decide(false);
    if (t != me) switch_to(t);
    return i < 500 ? i : -1;
}
static void sched_hook(const void* p, size_t n, int k) {
    if (!in_call || !ctl) return;
    int s = in_call; in_call = 0;
    uintptr_t a = (uintptr_t)p;
    if (shared_addr(a) && is_conf(a, n, k)) {
        note(a, n, k, point(a, k));
        for (size_t b = 0; b < n; b++) {
            auto& l = (*la)[a + b];
            bool bad = false;
            for (int o = 0; o < nthr; o++) if (o != me) {
                auto unord = [&](VC& t) { return t[o] && t[o] > vc[me][o]; };
                bad |= unord(l.w);                         // two accesses, one of them a plain write, or one plain and one an atomic write
                if (k == ACC_W) bad |= unord(l.r) || unord(l.ar) || unord(l.aw);
                if (k == ACC_R) bad |= unord(l.aw);
                if (k == ACC_A) bad |= unord(l.r);
            }
            if (bad && !R->race) { R->race = 1; Dl_info di; const char* nm = dladdr(p, &di) && di.dli_sname ? di.dli_sname : "a static variable"; snprintf(R->where, sizeof R->where, "unsynchronised %s of shared memory (%s)", k == ACC_R || k == ACC_AR ? "read" : "write", nm); }
            (k == ACC_R ? l.r : k == ACC_W ? l.w : k == ACC_A ? l.aw : l.ar)[me] = vc[me][me];
        }
    }
    in_call = s;
}
static void yield_other() { if (++stuck > 4000) { R->stuck = 1; _exit(0); } int m = others(); if (m) { int t = me; do t = (t + 1) % nthr; while (!(m >> t & 1)); switch_to(t); } else sched_yield(); }
// locks and once-blocks the library may take: blocking hands the turn over, and both ends order the threads
extern "C" int pthread_mutex_trylock(pthread_mutex_t*);
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) {
    static mtx_fn real; if (!real) real = (mtx_fn)dlsym(RTLD_NEXT, "pthread_mutex_lock");
    if (in_call && rec && !ctl) record_hook(m, 8, ACC_A);
    if (!in_call || !ctl) return real(m);
    int s = in_call; in_call = 0;
    int pt = point((uintptr_t)m);
    while (pthread_mutex_trylock(m)) yield_other();
    note((uintptr_t)m, 8, ACC_A, pt);
    sync_on((uintptr_t)m); in_call = s; return 0;
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) {
    static mtx_fn real; if (!real) real = (mtx_fn)dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    if (!in_call || !ctl) return real(m);
    int s = in_call; in_call = 0; note((uintptr_t)m, 8, ACC_A, point((uintptr_t)m)); sync_on((uintptr_t)m); int r = real(m); in_call = s; return r;
}
extern "C" int pthread_once(pthread_once_t* o, void (*fn)()) {
    if (in_call && rec && !ctl) record_hook(o, 4, ACC_A);
    int* b = (int*)o; int s = in_call; in_call = 0;
    if (ctl && s) note((uintptr_t)o, 4, ACC_A, point((uintptr_t)o));
    while (__atomic_load_n(b, 2) == 1) { if (ctl) yield_other(); else sched_yield(); }
    if (*b == 0) { __atomic_store_n(b, 1, 3); in_call = s; fn(); in_call = 0; if (ctl) sync_on((uintptr_t)b); __atomic_store_n(b, 2, 3); }
    if (ctl) sync_on((uintptr_t)b);
    in_call = s; return 0;
}
// function-local statics
extern "C" int __cxa_guard_acquire(uint64_t* g) {
    if (in_call && rec && !ctl) record_hook(g, 8, ACC_A);
    uint8_t* b = (uint8_t*)g; int s = in_call; in_call = 0;
    if (ctl && s) { note((uintptr_t)g, 8, ACC_A, point((uintptr_t)g)); sync_on((uintptr_t)g); }
    while (b[1]) { if (ctl) yield_other(); else sched_yield(); }
    int r = 0;
    if (!b[0]) { b[1] = 1; r = 1; }
    if (ctl) sync_on((uintptr_t)g);
    in_call = s; return r;
}
extern "C" void __cxa_guard_release(uint64_t* g) { uint8_t* b = (uint8_t*)g; int s = in_call; in_call = 0; if (ctl) sync_on((uintptr_t)g); b[1] = 0; __atomic_store_n(b, 1, __ATOMIC_RELEASE); in_call = s; }
extern "C" void __cxa_guard_abort(uint64_t* g) { ((uint8_t*)g)[1] = 0; }

static void* side_thread(void* arg) {
    me = (int)(intptr_t)arg; thread_ranges();
    pthread_mutex_lock(&bm); while (turn != me) pthread_cond_wait(&bc, &bm); pthread_mutex_unlock(&bm);
    Side& s = me == 2 ? C3 : me ? B : A;
    in_call = 1; s.call(); in_call = 0; nblk = 0;
    fin[me] = true;
    int t = others() ? decide(true) : -1;
    pthread_mutex_lock(&bm); turn = t; pthread_cond_broadcast(&bc); pthread_mutex_unlock(&bm);
    return 0;
}
// records the footprint of one call in a thread of its own
struct RecArg { std::vector<Acc>* v; };
static void* rec_thread(void* a) {
    me = 0; thread_ranges(); rec = (std::vector<Acc>*)a;
    rec->reserve(4096);
    nblk = 0; g_access = record_hook; in_call = 1; A.call(); A.call(); in_call = 0; g_access = 0; nblk = 0;
    return 0;
}
static std::vector<Acc> footprint(const Op& op, const Case& c) {
    std::vector<Acc> v;
    A.op = &op; A.c = c; A.mem = M + 256; B.op = &op; memset(M, 0xC3, sizeof M);
    if (is_load(op)) memcpy(A.mem, c.a[mem_arg(op)], 64);
    A.prep();
    pthread_t t; pthread_create(&t, 0, rec_thread, &v); pthread_join(t, 0);
    return v;
}
static bool conflicts(const std::vector<Acc>& x, const std::vector<Acc>& y, std::vector<uintptr_t>& out) {
    std::map<uintptr_t, int> m;
    for (auto& a : x) for (int b = 0; b < a.n; b++) m[a.p + b] |= 1 << a.k;
    bool any = false;
    for (auto& a : y) for (int b = 0; b < a.n; b++) { auto it = m.find(a.p + b); if (it == m.end()) continue; auto wr = [](int m) { return (m & (1 << ACC_W | 1 << ACC_A)) != 0; }; if (wr(1 << a.k) || wr(it->second)) { out.push_back(a.p + b); any = true; } }
    std::sort(out.begin(), out.end()); out.erase(std::unique(out.begin(), out.end()), out.end());
    return any;
}
static int g_budget;
static Side* side(int t) { return t == 2 ? &C3 : t ? &B : &A; }
static void one_run(const std::vector<int>& pl, int first, int warm, uint8_t* const* pp) {
    memset(R, 0, sizeof *R);
    pid_t c = fork();
    if (!c) {
        alarm(20);
        plan = pl; sv = new std::map<uintptr_t, SyncVar>; la = new std::map<uintptr_t, Last>;
        fill(M, pp[0], pp[1]);
        if (warm) for (int t = nthr; t-- > 0;) solo(*side(t), pp[t]);
        fill(M, pp[0], pp[1]); turn = -1; ctl = true;
        for (int t = 0; t < nthr; t++) { side(t)->mem = pp[t]; side(t)->prep(); }
        pthread_t t[NT]; for (int i = 0; i < nthr; i++) pthread_create(&t[i], 0, side_thread, (void*)(intptr_t)i);
        g_access = sched_hook; g_sync = sync_hook;
        pthread_mutex_lock(&bm); turn = first; pthread_cond_broadcast(&bc); pthread_mutex_unlock(&bm);
        for (int i = 0; i < nthr; i++) pthread_join(t[i], 0);
        g_access = 0; g_sync = 0;
        for (int i = 0; i < nthr; i++) memcpy(R->r[i].b, side(i)->out, 64);
        memcpy(R->m, M, 640); R->done = 1;
        _exit(0);
    }
    int st; waitpid(c, &st, 0);
    add(S->schedules, 1);
}
// two threads f(u), g(v); three: f(u), g(v), f(v') when f and g are the same intrinsic
static void explore_pair(int f, int g, int u, int v, const Case& cu, const Case& cv, const Case* c3, int warm, std::vector<uintptr_t>& cf) {
    A.op = &g_ops[f]; B.op = &g_ops[g]; A.c = cu; B.c = cv; conf = &cf; nthr = c3 ? 3 : 2;
    C3.op = &g_ops[f]; if (c3) C3.c = *c3;
    uint8_t* pp[NT]; place(0, pp[0], pp[1]); pp[2] = M + 256;
    if (c3 && mem_arg(*C3.op) >= 0) { if (is_load(*C3.op)) { if (pp[0] == pp[1]) B.c = C3.c = A.c; else return; } else pp[2] = pp[0] - mem_bytes(*C3.op); }
    // solo results in fresh children
    Result want[NT]; memset(want, 0, sizeof want);
    for (int s = 0; s < nthr; s++) { memset(R, 0, sizeof *R); pid_t c = fork(); if (!c) { fill(M, pp[0], pp[1]); R->r[0] = solo(*side(s), pp[s]); _exit(0); } int st; waitpid(c, &st, 0); want[s] = R->r[0]; }
    { pid_t c = fork(); if (!c) { fill(M, pp[0], pp[1]); for (int s = 0; s < nthr; s++) solo(*side(s), pp[s]); memcpy(R->m, M, 640); _exit(0); } int st; waitpid(c, &st, 0); memcpy(MX, R->m, 640); }
    int budget = c3 ? g_budget / 2 : g_budget / 4;
    // breadth-first over plans: the default continuation with one switch at a later point, at most two preemptions; who goes on when a thread ends is free
    struct N { std::vector<int> plan; int pre; };
    std::vector<N> lv[NT][3]; size_t at[NT][3] = {};
    for (int k = 0; k < nthr; k++) lv[k][0].push_back(N{{}, 0});
    for (int pre = 0; pre < 3; pre++) for (bool more = true; more && budget > 0;) {
        more = false;
        for (int first = 0; first < nthr && budget > 0; first++) {
            if (at[first][pre] >= lv[first][pre].size()) continue;
            more = true; budget--;
            const N n = lv[first][pre][at[first][pre]++];
            one_run(n.plan, first, warm, pp);
            static Run r; r = *R;
            char t[180];
            if (!r.done) report(u, v, c3 ? "three concurrent calls do not all return" : "two concurrent calls do not both return");
            for (int s = 0; s < nthr; s++) if (memcmp(&r.r[s], &want[s], sizeof(Result))) {
                snprintf(t, sizeof t, "result of %s changes under an interleaving with %s in %s (%zu scheduling decisions)", side(s)->op->name, side(s ? 0 : 1)->op->name, c3 ? "two other threads" : "another thread", n.plan.size()); report(u, v, t, &r.r[s], &want[s]);
            }
            if (memcmp(r.m, MX, 640)) report(u, v, "memory differs under an interleaving");
            if (r.race) { snprintf(t, sizeof t, "%s by concurrent calls of %s and %s", r.where, A.op->name, B.op->name); report(u, v, t); }
            // at each decision: the threads that later do something that does not commute with what the running thread is about to do
            int evof[512]; memset(evof, -1, sizeof evof);
            for (int e = 0; e < r.nev; e++) if (r.ev[e].pt >= 0) evof[r.ev[e].pt] = e;
            auto dependent = [&](int i, int o) {
                if (r.forced[i] || evof[i] < 0 || r.nev >= 3000) return true;
                const auto& x = r.ev[evof[i]];
                for (int e = evof[i] + 1; e < r.nev; e++) { const auto& y = r.ev[e]; if (y.who == o && y.a < x.a + x.n && x.a < y.a + y.n && (x.k == ACC_W || x.k == ACC_A || y.k == ACC_W || y.k == ACC_A)) return true; }
                return false;
            };
            for (int i = n.plan.size(); i < r.npoints; i++) for (int o = 0; o < nthr; o++) if ((r.alt[i] >> o & 1) && dependent(i, o)) {
                const int np = n.pre + !r.forced[i]; if (np > 2) continue;
                N m{n.plan, np}; for (int k = n.plan.size(); k < i; k++) m.plan.push_back(r.who[k]);
                m.plan.push_back(o); if (lv[first][np].size() < 30000) lv[first][np].push_back(m);
                if (np == pre) more = true;
            }
        }
    }
}
int main(int argc, char** argv) {
    std::string out; int tier = 1; std::vector<std::string> rep;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--lib") g_lib = argv[++i];
        else if (a == "--tsanlib") g_ts = argv[++i];
        else if (a == "--tier") tier = atoi(argv[++i]);
        else if (a == "--reentrant") g_reent = true;
        else if (a == "--out") out = argv[++i];
        else if (a == "--replay") { while (++i < argc) rep.push_back(argv[i]); }
    }
    register_all(); resolve_syms(g_lib.c_str());
    S = (Cnt*)shared_mem(sizeof(Cnt));
    const int N = g_ops.size();
    const long ncpu = sysconf(_SC_NPROCESSORS_ONLN);
    ncpu_spin = ncpu >= 4 ? 2000 : 20;
    std::vector<std::vector<Case>> C(N);
    std::vector<char> have(N, 0);
    struct FJ { int op, cs; };
    std::vector<FJ> fj;
    for (int i = 0; i < N; i++) if (missing(g_ops[i]).empty()) { have[i] = 1; C[i] = make_cases(g_ops[i], tier == 2 ? 60 : tier == 1 ? 24 : 6); for (size_t k = 0; k < C[i].size(); k++) fj.push_back(FJ{i, (int)k}); }
    // calls that do not return at all (another property's business) are left out
    { std::vector<std::vector<int>> byop(N); std::vector<int> idx; for (int i = 0; i < N; i++) if (have[i]) idx.push_back(i);
      auto o = run_pool(idx.size(), 8, 60, [&](size_t j) { static Arena ar; Result r; for (auto& c : C[idx[j]]) run_case(g_ops[idx[j]], c, ar, r); });
      for (size_t j = 0; j < idx.size(); j++) if (!o[j].clean()) {
          auto o2 = run_pool(C[idx[j]].size(), 8, 20, [&](size_t k) { static Arena ar; Result r; run_case(g_ops[idx[j]], C[idx[j]][k], ar, r); });
          std::vector<Case> ok; for (size_t k = 0; k < o2.size(); k++) if (o2[k].clean()) ok.push_back(C[idx[j]][k]);
          C[idx[j]] = ok; if (ok.empty()) have[idx[j]] = 0;
      } }
    struct Job { int part, f, g; std::vector<std::pair<int, int>> cs; };
    std::vector<Job> jobs;
    for (int i = 0; i < N; i++) if (have[i]) {
        const int n = C[i].size();
        std::vector<std::pair<int, int>> cs{{0, std::min(n - 1, 4)}, {std::min(n - 1, 1), std::min(n - 1, 3)}, {n - 1, 0}};
        if (tier == 2) for (int k = 0; k < n; k++) { cs.push_back({k, (k * 7 + 3) % n}); cs.push_back({0, k}); cs.push_back({k, 0}); }
        else if (tier == 1) for (int k : {5, n / 3, n / 2, n - 2}) if (k >= 0 && k < n) cs.push_back({k, (k * 7 + 3) % n});
        jobs.push_back(Job{0, i, i, cs});
        if (g_reent) { Job J{2, i, i, {}}; for (int k = 0; k < n && k < (tier == 2 ? 24 : 4); k++) J.cs.push_back({k, k}); jobs.push_back(J);
                      Job K{3, i, i, {}}; for (int k = 0; k < n; k++) K.cs.push_back({k, k}); jobs.push_back(K); K.part = 4; jobs.push_back(K); }
        for (int d = 1; d <= (tier == 2 ? 12 : 2); d++) if (have[(i + d) % N]) jobs.push_back(Job{0, i, (i + d) % N, {{0, 0}}});
    }
    // footprints: each operation in a child, results through shared memory
    struct FP { int n; Acc a[3000]; int cs[3000]; };
    std::vector<FP*> fp(N, (FP*)0);
    std::vector<int> idx; for (int i = 0; i < N; i++) if (have[i]) { idx.push_back(i); fp[i] = (FP*)shared_mem(sizeof(FP)); }
    if (!g_reent) resolve_syms(g_ts.c_str());
    if (!g_reent && (rep.empty() || rep[0] == "1"))
    run_pool(idx.size(), 8, 120, [&](size_t j) {
        const int i = idx[j];
        std::set<std::vector<long>> seen;
        for (size_t k = 0; k < C[i].size(); k++) {
            auto v = footprint(g_ops[i], C[i][k]);
            Foot m = merge(v);
            bool wr = false; for (auto& a : m.a) if (a.k != ACC_R && a.k != ACC_AR) wr = true;
            std::vector<long> key; for (auto& a : m.a) { key.push_back(a.p); key.push_back(a.k); }
            if (key.empty() || (!seen.insert(key).second && k > 12)) continue;
            (void)wr;
            for (auto& a : m.a) if (fp[i]->n < 3000) { fp[i]->cs[fp[i]->n] = k; fp[i]->a[fp[i]->n++] = a; }
        }
    });
    resolve_syms(g_lib.c_str());
    uint64_t npairs = 0, nconf = 0; std::set<uintptr_t> locs;
    std::map<int, int> perf; int n1 = 0;
    for (int i : idx) for (int k = 0; k < fp[i]->n; k++) locs.insert(fp[i]->a[k].p);
    if (!g_reent) for (int f : idx) for (int g : idx) {
        npairs++;
        if (f > g) continue;
        std::vector<Acc> x(fp[f]->a, fp[f]->a + fp[f]->n), y(fp[g]->a, fp[g]->a + fp[g]->n);
        std::vector<uintptr_t> cf;
        if (x.empty() || y.empty() || !conflicts(x, y, cf)) continue;
        nconf++;
        if (perf[f]++ > (tier == 2 ? 40 : 6)) continue;
        std::vector<std::pair<int, int>> cs; std::set<int> cu(fp[f]->cs, fp[f]->cs + fp[f]->n), cv(fp[g]->cs, fp[g]->cs + fp[g]->n);
        std::vector<int> lu(cu.begin(), cu.end()), lv(cv.begin(), cv.end());
        auto pick = [&](size_t a, size_t b) { std::pair<int, int> x{lu[a % lu.size()], lv[b % lv.size()]}; if (std::find(cs.begin(), cs.end(), x) == cs.end()) cs.push_back(x); };
        pick(0, 1); pick(2, 3); pick(1, 2); pick(0, 0); pick(0, 5); pick(lu.size() - 1, 0);
        if (tier == 2) for (int k = 0; k < 10; k++) pick(k * 3 + 1, k * 5 + 2);
        for (auto& x : cs) jobs.push_back(Job{1, f, g, {x}}), n1++;
        jobs.push_back(Job{0, f, g, cs});
    }
    g_budget = std::max(300, std::min(tier == 2 ? 60000 : 16000, (tier == 2 ? 4000000 : 300000) / std::max(1, n1)));
    if (!rep.empty()) { std::vector<Job> k; for (auto& j : jobs) if (j.part == atoi(rep[0].c_str()) && rep[1] == g_ops[j.f].name && rep[2] == g_ops[j.g].name) k.push_back(j); jobs = k; }
    V = (Rec*)shared_mem(sizeof(Rec) * (jobs.size() + 1));
    if (g_reent) {                                          // the handler's calls, and each one's result in a process of its own
        Result* fr = (Result*)shared_mem(sizeof(Result) * N);
        std::vector<int> gi; for (int i = 0; i < N; i++) if (have[i]) gi.push_back(i);
        auto o = run_pool(gi.size(), 8, 20, [&](size_t k) {
            static Side s; s.op = &g_ops[gi[k]]; s.c = C[gi[k]][0]; s.mem = MB + 256; memset(MB, 0xC3, sizeof MB);
            if (is_load(*s.op)) memcpy(s.mem, s.c.a[mem_arg(*s.op)], 64);
            s.prep(); s.call(); memcpy(fr[k].b, s.out, 64); if (is_store(*s.op)) memcpy(fr[k].b, MB + 224, 128);
        });
        Result* keep = new Result[gi.size()]; size_t n = 0;
        for (size_t k = 0; k < gi.size(); k++) if (o[k].clean()) { void* m = 0; if (posix_memalign(&m, 64, sizeof(Side))) _exit(3); Side* s = new (m) Side; s->op = &g_ops[gi[k]]; s->c = C[gi[k]][0]; ALLB.s.push_back(s); keep[n++] = fr[k]; }
        ALLB.fresh = keep;
    }
    auto body = [&](size_t j) {
        g_job = j; const Job& J = jobs[j];
        if (J.part == 4) { std::vector<int> u; for (auto& x : J.cs) u.push_back(x.first); job_hold(J.f, u, C[J.f], tier == 2 ? 20000 : 400); }
        else if (J.part == 3) { std::vector<int> u; for (auto& x : J.cs) u.push_back(x.first); job_nomem(J.f, u, C[J.f]); }
        else if (J.part == 2) { g_st.locate(g_lib); std::vector<int> u; for (auto& x : J.cs) u.push_back(x.first); job_all(J.f, u, C[J.f]); }
        else if (J.part == 0) { g_st.locate(g_lib); job_step(J.f, J.g, J.cs, C[J.f], C[J.g]); }
        else {
            resolve_syms(g_ts.c_str()); g_tst.locate(g_ts); R = (Run*)shared_mem(sizeof(Run));
            for (auto& uv : J.cs) {
                std::vector<uintptr_t> cf; std::vector<Acc> xs(fp[J.f]->a, fp[J.f]->a + fp[J.f]->n), ys(fp[J.g]->a, fp[J.g]->a + fp[J.g]->n); conflicts(xs, ys, cf);
                if (!cf.empty()) { pid_t c = fork(); if (!c) {
                    const Case &x = C[J.f][uv.first], &y = C[J.g][uv.second];
                    explore_pair(J.f, J.g, uv.first, uv.second, x, y, 0, 0, cf);
                    explore_pair(J.f, J.g, uv.first, uv.second, x, y, 0, 1, cf);
                    if (J.f == J.g) for (int w = 0; w < 2; w++) explore_pair(J.f, J.g, uv.first, uv.second, x, y, &C[J.f][(uv.first + 2) % C[J.f].size()], w, cf);
                    _exit(0);
                } int st; waitpid(c, &st, 0); }
                if (V[g_job].set) _exit(0);
            }
        }
    };
    const int par = std::max(1l, std::min(8l, ncpu / 2));
    auto oc = run_pool(jobs.size(), par, tier == 2 ? 1800 : 240, body);
    FILE* fo = out.empty() ? stdout : fopen(out.c_str(), "w");
    int nv = 0; uint64_t done = 0; std::map<int, int> per;
    for (size_t j = 0; j < jobs.size(); j++) {
        bool crash = !oc[j].clean() && !oc[j].timeout();
        if (crash && !V[j].set) { auto o2 = run_pool(1, 1, 300, [&](size_t) { body(j); }); if (o2[0].clean() && !V[j].set) crash = false; }
        if (oc[j].clean() && !V[j].set) { done++; continue; }
        if (!V[j].set && !crash) continue;
        nv++;
        const Op& op = g_ops[jobs[j].f];
        if (!rep.empty()) { printf("%s: %s\n", op.name, V[j].set ? V[j].what : why(oc[j]).c_str()); continue; }
        if (per[jobs[j].f]++) continue;
        std::string w = V[j].set ? V[j].what : (g_reent ? "a call interrupted by a signal handler that makes a call: " : "two threads calling at the same time: ") + why(oc[j]);
        fprintf(fo, "{\"violation\":{\"op\":\"%s\",\"kind\":\"schedule\",\"what\":\"%s\",\"part\":%d,\"other\":\"%s\",\"args\":%s,\"n\":%d,\"got\":\"%s\",\"want\":\"%s\"}}\n", op.name, jesc(w).c_str(), jobs[j].part, g_ops[jobs[j].g].name,
                case_json(op, C[jobs[j].f][V[j].u]).c_str(), C[jobs[j].f][V[j].u].n, hexn(V[j].got.b, 64).c_str(), hexn(V[j].want.b, 64).c_str());
    }
    if (!rep.empty()) return nv ? 1 : 0;
    fprintf(fo, "{\"total\":{\"points\":%llu,\"runs\":%llu,\"schedules\":%llu,\"pairs\":%llu,\"allpairs\":%llu,\"conflicts\":%llu,\"dirty\":%llu,\"accesses\":%llu,\"sharedlocs\":%zu,\"jobs\":%llu,\"alljobs\":%zu,\"distinct\":%d}}\n",
            (unsigned long long)S->points, (unsigned long long)S->runs, (unsigned long long)S->schedules, (unsigned long long)S->pairs, (unsigned long long)npairs, (unsigned long long)nconf,
            (unsigned long long)S->dirty, (unsigned long long)S->accesses, locs.size(), (unsigned long long)done, jobs.size(), N);
    fclose(fo);
    return 0;
}
