// C18: every immediate of every immediate-taking intrinsic. Permitted values must return; every other value must end the
// process abnormally, with a diagnostic on standard error, before any value is returned or memory written.
//   main_imm --lib LIB --tier T --out FILE       main_imm --lib LIB --replay OP N CTX
#include "core.hpp"
#include "pool.hpp"
#include <algorithm>
#include <climits>
#include <setjmp.h>
#include <set>

static uint8_t* arena;   // page for memory operands, surrounded by canary bytes, shared with the parent
struct Shared { volatile int returned; volatile int changed; char err[256]; volatile int errlen; };
static sigjmp_buf g_jb; static volatile int g_sig;
static void on_sig(int s) { g_sig = s; siglongjmp(g_jb, 1); }
// contexts: operand contents around the call
static void fill(const Op& op, int ctx, uint8_t (*buf)[64]) {
    for (int i = 0; i < op.nargs; i++) for (int b = 0; b < 64; b++) buf[i][b] = ctx == 0 ? 0 : ctx == 1 ? 0xff : (uint8_t)(17 * b + 5 * i + 3);
    for (int b = 0; b < 4096; b++) arena[b] = ctx == 0 ? 0 : ctx == 1 ? 0xff : (uint8_t)(b * 7 + 1);
}
static void call_child(const Op& op, int n, int ctx, Shared* sh, int errfd) {
    dup2(errfd, 2);
    alignas(16) static uint8_t buf[5][64], out[64];
    fill(op, ctx, buf);
    const uint8_t* p[5];
    for (int i = 0; i < 5; i++) p[i] = buf[i];
    if (op.a[0].role == 'p' || op.a[0].role == 'w') p[0] = arena + 2048;
    op.call(p, n, out);
    sh->returned = 1;
}
int main(int argc, char** argv) {
    std::string lib, out; int tier = 1; std::vector<std::string> rep;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--lib") lib = argv[++i];
        else if (a == "--tier") tier = atoi(argv[++i]);
        else if (a == "--out") out = argv[++i];
        else if (a == "--replay") { while (++i < argc) rep.push_back(argv[i]); }
    }
    register_all(); resolve_syms(lib.c_str());
    struct Job { int op, n, ctx; bool valid; };
    std::vector<Job> jobs;
    FILE* fo = out.empty() ? stdout : fopen(out.c_str(), "w");
    int nv = 0;
    for (size_t i = 0; i < g_ops.size(); i++) {
        const Op& op = g_ops[i];
        if (op.immArg < 0) continue;
        if (!rep.empty() && rep[0] != op.name) continue;
        std::string ms = missing(op);
        if (!ms.empty()) {
            if (rep.empty()) fprintf(fo, "{\"violation\":{\"op\":\"%s\",\"kind\":\"missing\",\"what\":\"not exported under its C name: %s\"}}\n", op.name, ms.c_str());
            else return 1;
            nv++; continue;
        }
        std::set<long> ns;
        int R = tier == 2 ? 40000 : 4200;
        for (long n = -R; n <= R; n++) ns.insert(n);
        for (int k = 0; k < 32; k++) for (int d = -2; d <= 2; d++) { ns.insert((1L << k) + d); ns.insert(-(1L << k) + d); }
        for (int v = op.immLo - 1; v <= op.immHi + 1; v++) for (int k = 3; k < 32; k++) { ns.insert(v + (1L << k)); ns.insert(v - (1L << k)); ns.insert(v ^ (1L << k)); }
        for (long d = 0; d < 3; d++) { ns.insert(INT_MAX - d); ns.insert((long)INT_MIN + d); }
        for (long n : ns) {
            if (n < INT_MIN || n > INT_MAX) continue;
            bool valid = n >= op.immLo && n <= op.immHi;
            for (int ctx = 0; ctx < (valid || (tier == 2 && n > -2000 && n < 2000) || (n > -20 && n < 80) ? 3 : 1); ctx++) {
                int c = valid || (tier == 2 && n > -2000 && n < 2000) || (n > -20 && n < 80) ? ctx : 2;
                if (!rep.empty() && (atol(rep[1].c_str()) != n || atoi(rep[2].c_str()) != c)) continue;
                jobs.push_back(Job{(int)i, (int)n, c, valid});
            }
        }
        if (!rep.empty() && jobs.empty()) jobs.push_back(Job{(int)i, atoi(rep[1].c_str()), atoi(rep[2].c_str()), false});
    }
    // a memory block per worker would do; jobs are grouped so that each child forks its own grandchildren
    const size_t G = rep.empty() ? 64 : 1;
    struct Res { int bad; int job; int kind; int status; };
    size_t ng = (jobs.size() + G - 1) / G;
    Res* res = (Res*)shared_mem(sizeof(Res) * (ng + 1) * G);
    volatile uint64_t* done = (uint64_t*)shared_mem(sizeof(uint64_t) * (ng + 1));
    volatile int* atone = (int*)shared_mem(sizeof(int) * (ng + 1));
    volatile int* slowc = (int*)shared_mem(sizeof(int) * (ng + 1));
    int* nbad = (int*)shared_mem(sizeof(int) * (g_ops.size() + 1));
    // Each immediate is first executed in the worker itself, with abort() caught; whatever is not a clean rejection or a
    // clean return is executed again in a process of its own, and only that outcome counts.
    auto slow = [&](size_t j, const uint8_t* before, Shared* sh) {
        const Op& op = g_ops[jobs[j].op];
        for (int attempt = 0; attempt < 2; attempt++) {
            memcpy(arena, before, 4096);
            sh->returned = 0;
            int pp[2]; if (pipe(pp)) _exit(3);
            fcntl(pp[1], F_SETFL, O_NONBLOCK);
            fcntl(pp[0], F_SETFL, O_NONBLOCK);
            pid_t c = fork();
            if (c < 0) _exit(3);
            if (!c) {
                for (int s : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGTRAP}) signal(s, SIG_DFL);
                alarm(attempt ? 60 : 10); call_child(op, jobs[j].n, jobs[j].ctx, sh, pp[1]); _exit(0);
            }
            int st; while (waitpid(c, &st, 0) < 0) {}
            char e[256]; ssize_t el = read(pp[0], e, sizeof e);
            close(pp[0]); close(pp[1]);
            bool changed = memcmp(before, arena, 4096) != 0;
            int kind = 0;
            if (jobs[j].valid) { if (!sh->returned) kind = 1; }
            else if (sh->returned) kind = 2;
            else if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGSEGV || WTERMSIG(st) == SIGBUS || WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGFPE)) kind = 3;
            else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) kind = 4;
            else if (changed) kind = 5;
            else if (el <= 0) kind = 6;
            if (!kind) return;
            if (attempt) { res[j] = Res{1, (int)j, kind, st}; __atomic_fetch_add(&nbad[jobs[j].op], 1, __ATOMIC_RELAXED); }
        }
    };
    auto work = [&](size_t g, bool fast) {
        arena = (uint8_t*)shared_mem(4096);
        Shared* sh = (Shared*)shared_mem(sizeof(Shared));
        int mf = memfd_create("err", 0);
        alignas(16) static uint8_t buf[5][64], o[64];
        if (fast) {
            dup2(mf, 2);
            struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_sig; sa.sa_flags = SA_NODEFER;
            for (int s : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGTRAP}) sigaction(s, &sa, 0);
        }
        for (; done[g] + g * G < std::min(jobs.size(), (g + 1) * G); done[g]++) {
            size_t j = done[g] + g * G;
            if (nbad[jobs[j].op] >= 24) continue;          // enough examples of this operation
            const Op& op = g_ops[jobs[j].op];
            fill(op, jobs[j].ctx, buf);
            uint8_t before[4096]; memcpy(before, arena, 4096);
            bool good = false;
            if (fast && !atone[g]) {
                atone[g] = 1;                               // if the worker dies here, this immediate is executed alone
                if (ftruncate(mf, 0) || lseek(mf, 0, SEEK_SET)) _exit(3);
                const uint8_t* p[5]; for (int i = 0; i < 5; i++) p[i] = buf[i];
                if (op.a[0].role == 'p' || op.a[0].role == 'w') p[0] = arena + 2048;
                volatile int ret = 0; g_sig = 0;
                if (!sigsetjmp(g_jb, 1)) { op.call(p, jobs[j].n, o); ret = 1; }
                fflush(stderr);
                off_t el = lseek(mf, 0, SEEK_END);
                if (jobs[j].valid) good = ret == 1;
                else good = !ret && g_sig == SIGABRT && el > 0 && !memcmp(before, arena, 4096);
            }
            atone[g] = 0;
            if (!good) slow(j, before, sh);
            slowc[g] += !good;
        }
    };
    auto oc = run_pool(ng, 8, 300, [&](size_t g) { work(g, true); });
    std::vector<size_t> again;
    for (int round = 0; round < 40; round++) {               // workers that died: continue, the fatal immediate alone
        again.clear();
        for (size_t g = 0; g < ng; g++) if (!oc[g].clean()) again.push_back(g);
        if (again.empty()) break;
        auto o2 = run_pool(again.size(), 8, 300, [&](size_t k) { work(again[k], round < 39); });
        for (size_t k = 0; k < again.size(); k++) oc[again[k]] = o2[k];
    }
    static const char* K[] = {"", "a permitted immediate does not return normally", "an immediate out of range is accepted and the call returns", "an immediate out of range faults or hangs instead of being rejected",
        "an immediate out of range ends the process with success", "an immediate out of range modifies memory before it is rejected", "an immediate out of range is rejected without a diagnostic on standard error"};
    uint64_t tot = 0, val = 0; for (size_t g = 0; g < ng; g++) { tot += done[g]; if (!oc[g].clean()) { fprintf(stderr, "worker failed: %s\n", why(oc[g]).c_str()); return 3; } }
    for (auto& j : jobs) val += j.valid;
    std::set<std::string> seen;
    for (size_t j = 0; j < jobs.size(); j++) {
        if (!res[j].bad) continue;
        nv++;
        std::string key = std::string(g_ops[jobs[j].op].name) + (char)('0' + res[j].kind);
        if (!rep.empty()) printf("%s immediate %d: %s\n", g_ops[jobs[j].op].name, jobs[j].n, K[res[j].kind]);
        else if (seen.insert(key).second)
            fprintf(fo, "{\"violation\":{\"op\":\"%s\",\"kind\":\"imm\",\"what\":\"%s\",\"n\":%d,\"ctx\":%d}}\n", g_ops[jobs[j].op].name, K[res[j].kind], jobs[j].n, jobs[j].ctx);
    }
    if (!rep.empty()) return nv ? 1 : 0;
    std::set<int> ops; for (auto& j : jobs) ops.insert(j.op);
    fprintf(fo, "{\"total\":{\"tuples\":%zu,\"calls\":%llu,\"distinct\":%zu,\"jobs\":%zu,\"valid\":%llu,\"violations\":%d}}\n", jobs.size(), (unsigned long long)tot, ops.size(), ng, (unsigned long long)val, nv);
    fclose(fo);
    return 0;
}
