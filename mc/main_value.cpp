// Enumerates every box of every operation in the generated table against its reference.
//   main_value --lib LIB --tier 0|1|2 --out FILE [--only op] [--cap N]
//   main_value --lib LIB --replay OP N HEX...                    one tuple; exit 1 when it differs
//   main_value --lib LIB --tier T --replaybox OP BOX LO HI       a whole chunk; exit 1 when a tuple differs
#include "core.hpp"
#include "pool.hpp"
#include <map>
#include <algorithm>

static std::string hexs(const uint8_t* p, int n) { std::string s; char t[4]; for (int i = 0; i < n; i++) { snprintf(t, 4, "%02x", p[i]); s += t; } return s; }
static bool tuple_bad(const Op& op, const uint8_t (*args)[64], int n, JobRes* r) {
    alignas(16) uint8_t buf[5][64], got[64] = {0}, want[64] = {0};
    memcpy(buf, args, sizeof buf);
    const uint8_t* p[5]; for (int i = 0; i < 5; i++) p[i] = buf[i];
    op.call(p, n, got); reference(op, p, n, want);
    if (same_result(op, got, want)) return false;
    if (r) { memcpy(r->f.got, got, 64); memcpy(r->f.want, want, 64); memcpy(r->f.args, args, sizeof r->f.args); r->f.n = n; }
    return true;
}
// in a child: 0 fine, 1 differs, 2 crash/hang
static int try_tuple(const Op& op, const Fail& f, JobRes* sh, Outcome* oc, unsigned limit) {
    sh->viol = 0;
    auto o = run_pool(1, 1, limit, [&](size_t) { if (tuple_bad(op, f.args, f.n, sh)) sh->viol = 1; });
    *oc = o[0];
    if (!o[0].clean()) return 2;
    return sh->viol ? 1 : 0;
}
static bool base_ends_too(const Op& op, const Fail& f) {   // cross-build comparison: both builds end the process
    auto o = run_pool(1, 1, 20, [&](size_t) {
        alignas(16) uint8_t buf[5][64], out[64]; memcpy(buf, f.args, sizeof buf);
        const uint8_t* p[5]; for (int i = 0; i < 5; i++) p[i] = buf[i];
        reference(op, p, f.n, out);
    });
    return !o[0].clean();
}
int main(int argc, char** argv) {
    std::string lib, base, out, only; int tier = 1; uint64_t cap = 0; int par = 8;
    std::vector<std::string> rep, repbox;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--lib") lib = argv[++i];
        else if (a == "--base") base = argv[++i];
        else if (a == "--tier") tier = atoi(argv[++i]);
        else if (a == "--out") out = argv[++i];
        else if (a == "--only") only = argv[++i];
        else if (a == "--par") par = atoi(argv[++i]);
        else if (a == "--cap") cap = strtoull(argv[++i], 0, 10);
        else if (a == "--replay") { while (++i < argc) rep.push_back(argv[i]); }
        else if (a == "--replaybox") { while (++i < argc) repbox.push_back(argv[i]); }
    }
    register_all(); resolve_syms(lib.c_str());
    if (!base.empty()) resolve_base(base.c_str());
    (void)cap;
    auto find = [&](const std::string& n) -> const Op* { for (auto& o : g_ops) if (n == o.name) return &o; return 0; };
    JobRes* sh = (JobRes*)shared_mem(sizeof(JobRes));
    if (!rep.empty()) {
        const Op* op = find(rep[0]);
        if (!op) { fprintf(stderr, "no such op\n"); return 3; }
        std::string ms = missing(*op);
        if (!ms.empty()) { printf("%s: not exported: %s\n", op->name, ms.c_str()); return 1; }
        Fail f; memset(&f, 0, sizeof f); f.n = atoi(rep[1].c_str());
        int k = 2;
        for (int i = 0; i < op->nargs; i++) if (op->a[i].role != 'i') { const std::string& h = rep[k++]; for (size_t b = 0; b + 1 < h.size() && b / 2 < 64; b += 2) f.args[i][b / 2] = strtoul(h.substr(b, 2).c_str(), 0, 16); }
        Outcome oc; int r = try_tuple(*op, f, sh, &oc, 20);
        if (r == 2) printf("%s %s\n", op->name, why(oc).c_str());
        if (r == 1) printf("%s got %s want %s\n", op->name, hexs(sh->f.got, op->retEb * op->retLanes).c_str(), hexs(sh->f.want, op->retEb * op->retLanes).c_str());
        if (r == 0) printf("%s agrees with its reference\n", op->name);
        return r ? 1 : 0;
    }
    if (!repbox.empty()) {
        const Op* op = find(repbox[0]);
        if (!op) return 3;
        auto bx = make_boxes(*op, tier);
        size_t bi = atoi(repbox[1].c_str());
        uint64_t lo = strtoull(repbox[2].c_str(), 0, 10), hi = strtoull(repbox[3].c_str(), 0, 10);
        std::vector<uint8_t> bm(8192);
        auto o = run_pool(1, 1, 600, [&](size_t) { run_box(*op, bx.at(bi), lo, hi, sh, true, bm.data()); });
        printf("%s: %s\n", op->name, !o[0].clean() ? why(o[0]).c_str() : sh->viol ? "differs" : "agrees");
        return !o[0].clean() || sh->viol ? 1 : 0;
    }
    struct Job { int op, box; uint64_t lo, hi; };
    std::vector<Job> jobs;
    std::vector<std::vector<Box>> boxes(g_ops.size());
    std::vector<std::string> miss(g_ops.size());
    for (size_t i = 0; i < g_ops.size(); i++) {
        if (!g_ops[i].ref || (!only.empty() && only != g_ops[i].name)) continue;
        miss[i] = missing(g_ops[i]);
        if (!miss[i].empty()) continue;
        boxes[i] = make_boxes(g_ops[i], tier);
        for (size_t b = 0; b < boxes[i].size(); b++) {
            uint64_t n = box_steps(g_ops[i], boxes[i][b]);
            const uint64_t CH = tier == 2 ? 20000000 : 1500000;
            for (uint64_t lo = 0; lo < n; lo += CH) jobs.push_back(Job{(int)i, (int)b, lo, std::min(n, lo + CH)});
        }
    }
    // alphabets are built once here, before the children are forked
    JobRes* res = (JobRes*)shared_mem(sizeof(JobRes) * (jobs.size() + 1));
    volatile int* bad = (volatile int*)shared_mem(sizeof(int) * (g_ops.size() + 1));
    uint8_t* bms = (uint8_t*)shared_mem(8192 * (g_ops.size() + 1));
    const unsigned LIM = tier == 2 ? 600 : 120;
    auto outc = run_pool(jobs.size(), par, LIM, [&](size_t j) {
        const Job& J = jobs[j];
        if (bad[J.op]) return;
        static uint8_t bm[8192];
        if (!run_box(g_ops[J.op], boxes[J.op][J.box], J.lo, J.hi, &res[j], false, bm)) bad[J.op] = 1;
        uint8_t* d = bms + 8192 * (size_t)J.op;
        for (int i = 0; i < 8192; i++) if (bm[i] & ~d[i]) __atomic_fetch_or(d + i, bm[i], __ATOMIC_RELAXED);
        res[j].done = 1;
    });
    FILE* fo = fopen(out.c_str(), "w");
    if (!fo) { perror(out.c_str()); return 3; }
    uint64_t tt = 0, tc = 0, td = 0, tl = 0;
    for (size_t j = 0; j < jobs.size(); j++) { tt += res[j].tuples; tc += res[j].calls; tl += res[j].calls * g_ops[jobs[j].op].retLanes; }
    std::vector<uint64_t> opt(g_ops.size()), opc(g_ops.size()), opd(g_ops.size()), opj(g_ops.size());
    for (size_t j = 0; j < jobs.size(); j++) { opt[jobs[j].op] += res[j].tuples; opc[jobs[j].op] += res[j].calls; opj[jobs[j].op] += res[j].done; }
    for (size_t i = 0; i < g_ops.size(); i++) { for (int b = 0; b < 8192; b++) opd[i] += __builtin_popcount(bms[8192 * i + b]); td += opd[i]; }
    int nv = 0, nsamp = 0;
    for (size_t i = 0; i < g_ops.size() && nsamp < 6; i += std::max((size_t)1, g_ops.size() / 6)) {   // cases of this run, written out
        const Op& op = g_ops[i];
        if (boxes[i].empty() || bad[i]) continue;
        size_t b = nsamp % boxes[i].size();
        uint64_t n = box_steps(op, boxes[i][b]), at = n / 2 + n / 7;
        if (!n) continue;
        std::vector<uint8_t> bm(8192);
        memset((void*)sh, 0, sizeof *sh);
        auto o = run_pool(1, 1, 20, [&](size_t) { run_box(op, boxes[i][b], at, at + 1, sh, true, bm.data()); });
        if (!o[0].clean()) continue;
        fprintf(fo, "{\"sample\":{\"op\":\"%s\",\"box\":%zu,\"of_steps\":%llu,\"step\":%llu,\"args\":%s,\"result\":\"%s\"}}\n", op.name, b, (unsigned long long)n, (unsigned long long)at, args_json(op, sh->f).c_str(), hexs(sh->f.got, op.retEb * op.retLanes).c_str());
        nsamp++;
    }
    for (size_t i = 0; i < g_ops.size(); i++) {
        const Op& op = g_ops[i];
        if (!op.ref || (!only.empty() && only != op.name)) continue;
        if (!miss[i].empty()) {
            if (g_cross) continue;
            fprintf(fo, "{\"violation\":{\"op\":\"%s\",\"kind\":\"missing\",\"what\":\"not exported under its C name: %s\"}}\n", op.name, jesc(miss[i]).c_str()); nv++; continue;
        }
        // first failing job of this operation
        for (size_t j = 0; j < jobs.size(); j++) {
            if (jobs[j].op != (int)i) continue;
            if (outc[j].clean() && !res[j].viol) continue;
            Fail f; std::string what; bool have = false;
            if (res[j].viol) { f = res[j].f; have = true; what = (g_cross ? "result differs from the result of the gcc -O2 build" : "result differs from the reference"); }
            else {  // crash or hang: run again, alone, recording every tuple before the call
                std::vector<uint8_t> bm(8192);
                memset((void*)sh, 0, sizeof *sh);
                auto o = run_pool(1, 1, LIM * 3, [&](size_t) { run_box(op, boxes[i][jobs[j].box], jobs[j].lo, jobs[j].hi, sh, true, bm.data()); });
                if (o[0].clean() && !sh->viol) continue;
                f = sh->f; have = true; what = o[0].clean() ? std::string(g_cross ? "result differs from the result of the gcc -O2 build" : "result differs from the reference") : why(o[0]);
            }
            if (!have) continue;
            if (g_cross && base_ends_too(op, f)) continue;
            // minimise: zero lanes while the tuple alone still fails
            Outcome oc; int alone = try_tuple(op, f, sh, &oc, 20);
            if (alone) {
                for (int a = 0; a < op.nargs; a++) {
                    if (op.a[a].role != 'v' && op.a[a].role != 's') continue;
                    for (int l = 0; l < op.a[a].lanes; l++) {
                        Fail g = f; memset(g.args[a] + l * op.a[a].eb, 0, op.a[a].eb);
                        int r = try_tuple(op, g, sh, &oc, 20);
                        if (r == alone) f = g;
                    }
                }
                int r = try_tuple(op, f, sh, &oc, 20);
                if (r == 1) f = sh->f; else what = why(oc);
            }
            int rb = op.retEb * op.retLanes;
            fprintf(fo, "{\"violation\":{\"op\":\"%s\",\"kind\":\"%s\",\"what\":\"%s\",\"args\":%s,\"n\":%d,\"got\":\"%s\",\"want\":\"%s\",\"box\":%d,\"lo\":%llu,\"hi\":%llu}}\n", op.name,
                    alone ? "tuple" : "history", jesc(what).c_str(), args_json(op, f).c_str(), f.n, hexs(f.got, rb).c_str(), hexs(f.want, rb).c_str(), jobs[j].box,
                    (unsigned long long)jobs[j].lo, (unsigned long long)jobs[j].hi);
            nv++;
            break;
        }
        fprintf(fo, "{\"op\":\"%s\",\"tuples\":%llu,\"calls\":%llu,\"distinct\":%llu,\"jobs\":%llu,\"boxes\":%zu}\n", op.name, (unsigned long long)opt[i], (unsigned long long)opc[i],
                (unsigned long long)opd[i], (unsigned long long)opj[i], boxes[i].size());
    }
    fprintf(fo, "{\"total\":{\"tuples\":%llu,\"calls\":%llu,\"distinct\":%llu,\"jobs\":%zu,\"lanes\":%llu,\"violations\":%d}}\n", (unsigned long long)tt, (unsigned long long)tc, (unsigned long long)td, jobs.size(), (unsigned long long)tl, nv);
    fclose(fo);
    return 0;
}
