// C01/C02 (values moved) and C03 (bytes touched) for every load and store intrinsic.
//   main_mem --lib LIB [--tsanlib LIB] --mode value|foot --tier T --prop C01|C02|all --out FILE [--only OP]
//   main_mem ... --replay OP PART CASE       runs one part up to and including one case; exit 1 when it fails
#include "core.hpp"
#include "pool.hpp"
#include "tsan_stubs.hpp"
#include <algorithm>
#include <dlfcn.h>

static const int W = 4096;                       // arena page
static uint8_t* page;                            // guard | page | guard
static uint8_t* map_page() {
    uint8_t* m = (uint8_t*)mmap(0, 3 * W, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED || mprotect(m + W, W, PROT_READ | PROT_WRITE)) _exit(3);
    return m + W;
}
struct Mem {
    const Op* op; int kind, N, lanes, eb, total, foot; bool store;
    int vecArg;                                  // -1 when none
    explicit Mem(const Op& o) : op(&o), kind(o.mem.kind), N(o.mem.n), lanes(o.mem.lanes), eb(o.mem.eb) {
        total = N * lanes;
        foot = kind == 2 ? eb : kind == 3 || kind == 5 ? N * eb : total * eb;
        store = kind >= 4; vecArg = -1;
        for (int i = 0; i < o.nargs; i++) if (o.a[i].role == 'v') vecArg = i;
    }
    int memElems() const { return foot / eb; }
    void model(uint8_t* mem, const uint8_t* vec, int n, uint8_t* out) const {   // out for loads, mem for stores
        for (int k = 0; k < N; k++) for (int i = 0; i < lanes; i++) {
            uint8_t* o = out + (k * lanes + i) * eb; const uint8_t* v = vec + (k * lanes + i) * eb;
            switch (kind) {
                case 1: memcpy(o, mem + (N * i + k) * eb, eb); break;
                case 2: memcpy(o, mem, eb); break;
                case 3: memcpy(o, i == n ? mem + k * eb : v, eb); break;
                case 4: memcpy(mem + (N * i + k) * eb, v, eb); break;
                case 5: if (i == n) memcpy(mem + k * eb, v, eb); break;
            }
        }
    }
};
static std::string kindOf(const Op& op) { return op.comps[0]; }
struct Ctx {
    JobRes* res; uint64_t stop; uint64_t at = 0; char* note;
    alignas(16) uint8_t vec[64], out[64], want[64], img[W];
    int prot = PROT_READ | PROT_WRITE;
    bool fail(const Mem& m, int n, int off, const char* what) {
        res->viol = 1; res->f.n = n; res->what = (int)at;
        memcpy(res->f.args[0], page + off, std::min(64, W - off)); memcpy(res->f.args[1], vec, 64);
        memcpy(res->f.got, m.store ? page + off : out, std::min(64, W - off)); memcpy(res->f.want, m.store ? img + off : want, std::min(64, W - off));
        snprintf(note, 200, "%s (address offset %d in page)", what, off);
        return false;
    }
    // page content is already set up; window = bytes around the operand that are compared
    bool call(const Mem& m, int n, int off, int window) {
        const uint8_t* p[5] = {page + off, vec, vec, vec, vec};
        int lo = std::max(0, off - window), hi = std::min(W, off + m.foot + window);
        memcpy(img + lo, page + lo, hi - lo);
        memset(out, 0xEE, 64);
        m.model(img + off, vec, n, want);
        res->what = (int)at; res->f.n = n; snprintf(note, 200, "address offset %d in page", off);
        m.op->call(p, n, out);
        res->calls++; at++;
        if (!m.store && memcmp(out, want, m.total * m.eb)) { at--; return fail(m, n, off, "a lane does not hold the element it names"); }
        if (memcmp(page + lo, img + lo, hi - lo)) {
            at--;
            if (!m.store) return fail(m, n, off, "a load changed memory");
            bool inside = memcmp(page + off, img + off, m.foot) != 0;
            return fail(m, n, off, inside ? "a stored element differs from its lane" : "a store changed a neighbouring byte");
        }
        return true;
    }
};
static void put(uint8_t* p, uint64_t v, int eb) { memcpy(p, &v, eb); }
static void background(uint8_t* p, int n, int bg) { for (int i = 0; i < n; i++) p[i] = bg == 0 ? 0 : bg == 1 ? 0xff : (uint8_t)(i * 29 + 7 + i / 256 * 13); }

// ---- parts of the value enumeration; each is one job. returns false on failure
static bool part_value(const Op& op, int part, int tier, Ctx& c) {
    Mem m(op);
    const std::string kd = kindOf(op);
    const int nlo = op.immArg >= 0 ? op.immLo : 0, nhi = op.immArg >= 0 ? op.immHi : 0;
    const int dst = m.eb, noff = 64 / dst;
    const int melem = m.memElems(), velem = m.vecArg >= 0 ? m.total : 0;
    auto elem = [&](int off, int e) -> uint8_t* { return e < (m.store ? 0 : melem) ? page + off + e * m.eb : c.vec + (e - (m.store ? 0 : melem)) * m.eb; };
    const int ne = (m.store ? 0 : melem) + velem;        // source elements of the move
    background(page, W, 2); background(c.vec, 64, 2);
    for (int n = nlo; n <= nhi; n++) {
        if (part == 0) {                                  // labels at every offset of a cache line, at three bases
            for (int base : {512, 1024 + 960, 2048 - 64})
                for (int o = 0; o < noff; o++)
                    for (int bg = 0; bg < 3; bg++)
                        for (int rep = 0; rep < 3; rep++) {
                            background(page, W, bg); background(c.vec, 64, bg ^ 1);
                            for (int e = 0; e < ne; e++) { uint64_t v = rep == 0 ? e + 1 : rep == 1 ? ~(uint64_t)e : 0x0101010101010101ull * (e + 65) * 3; put(elem(base + o * dst, e), v, m.eb); }
                            c.res->tuples++;
                            if (!c.call(m, n, base + o * dst, W)) return false;
                        }
        } else if (part == 1) {                           // one element takes every value of its alphabet over two backgrounds
            const Dom& d = dom(kd, m.eb == 1 ? 256 : tier == 0 ? 200 : m.eb == 2 || tier == 2 ? 65536 : 12000);
            for (int bg = 0; bg < 2; bg++) {
                background(page + 512, 512, bg); background(c.vec, 64, bg);
                for (int e = 0; e < ne; e++) {
                    const int off = 640 + (e % noff) * dst;
                    uint8_t sv[8]; memcpy(sv, elem(off, e), m.eb);
                    for (uint64_t v : d) {
                        put(elem(off, e), v, m.eb); c.res->tuples++;
                        if (!c.call(m, n, off, 64)) return false;
                        if (m.store) background(page + off, m.foot, bg);
                    }
                    memcpy(elem(off, e), sv, m.eb);
                }
            }
        } else if (part == 2) {                           // all elements run through the alphabet, rotated against each other
            const Dom& d = dom(kd, m.eb == 1 ? 256 : m.eb == 2 ? 65536 : tier == 0 ? 1000 : tier == 1 ? 200000 : 2000000);
            for (size_t rot : {(size_t)0, (size_t)1, d.size() / std::max(ne, 1) + 37})
                for (size_t p = 0; p < d.size(); p++) {
                    const int off = 640 + (int)(p % noff) * dst;
                    for (int e = 0; e < ne; e++) put(elem(off, e), d[(p + e * rot) % d.size()], m.eb);
                    c.res->tuples++;
                    if (!c.call(m, n, off, 64)) return false;
                }
        } else if (part == 3) {                           // every pair of elements takes every pair of a tiny alphabet
            const Dom& d = dom(kd, tier == 0 ? 3 : tier == 1 ? 8 : 12);
            for (int bg = 0; bg < 2; bg++)
                for (int i = 0; i < ne; i++) for (int j = i + 1; j < ne; j++)
                    for (uint64_t x : d) for (uint64_t y : d) {
                        const int off = 640 + ((i + j) % noff) * dst;
                        background(page + 512, 512, bg); background(c.vec, 64, bg);
                        put(elem(off, i), x, m.eb); put(elem(off, j), y, m.eb);
                        c.res->tuples++;
                        if (!c.call(m, n, off, 64)) return false;
                    }
        }
    }
    return true;
}
// operands across page borders and across the borders of address ranges, both sides accessible
static bool part_places(const Op& op, int tier, Ctx& c) {
    Mem m(op);
    const int nlo = op.immArg >= 0 ? op.immLo : 0, nhi = op.immArg >= 0 ? op.immHi : 0;
    for (uintptr_t B : {(uintptr_t)0, (uintptr_t)0x20000, (uintptr_t)1 << 24, (uintptr_t)1 << 31, (uintptr_t)1 << 32, (uintptr_t)3 << 32, (uintptr_t)1 << 36, (uintptr_t)1 << 40, (uintptr_t)1 << 46}) {
        uint8_t* r = (uint8_t*)mmap((void*)(B ? B - 2 * W : 0), 4 * W, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | (B ? MAP_FIXED_NOREPLACE : 0), -1, 0);
        if (r == MAP_FAILED || (B && r != (uint8_t*)(B - 2 * W))) { if (r != MAP_FAILED) munmap(r, 4 * W); continue; }
        page = r + 2 * W - W / 2;                          // the border is in the middle of the window
        for (int n = nlo; n <= nhi; n++) for (int bg = 0; bg < 3; bg++) for (int off = W / 2 - m.foot - 2 * m.eb; off <= W / 2 + 2 * m.eb; off += m.eb) {
            background(page, W, bg); background(c.vec, 64, 2 - bg);
            for (int e = 0; e < (m.store ? 0 : m.memElems()); e++) put(page + off + e * m.eb, 0x0102030405060708ull * (e + 3), m.eb);
            c.res->tuples++;
            if (!c.call(m, n, off, W)) return false;
        }
        munmap(r, 4 * W);
    }
    return true;
}
// contents of two values: which elements hold the second one runs through all subsets, or all small subsets, intervals, strides and their complements
static bool part_subsets(const Op& op, int tier, Ctx& c) {
    Mem m(op);
    const Dom& d = dom(kindOf(op), tier == 2 ? 8 : tier == 1 ? 5 : 3);
    const int melem = m.store ? 0 : m.memElems(), ne = melem + (m.vecArg >= 0 ? m.total : 0);
    const int nlo = op.immArg >= 0 ? op.immLo : 0, nhi = op.immArg >= 0 ? op.immHi : 0;
    typedef unsigned long long U;
    std::vector<std::pair<U, U>> S;                        // low and high words of the subset (up to 128 elements)
    auto add = [&](U lo, U hi) { S.push_back({lo, hi}); };
    auto bit = [](int e) { return e < 64 ? std::make_pair(1ull << e, 0ull) : std::make_pair(0ull, 1ull << (e - 64)); };
    if (ne <= (tier ? 16 : 12)) for (U s = 0; s < 1ull << ne; s++) add(s, 0);
    else {
        auto both = [&](U lo, U hi) { add(lo, hi); add(~lo, ~hi); };
        for (int i = 0; i < ne; i++) { U lo = 0, hi = 0; for (int j = i; j < ne; j++) { lo |= bit(j).first; hi |= bit(j).second; both(lo, hi); } }
        for (int st : {2, 3, 4, 8}) for (int k = 0; k < st; k++) for (int x = 0; x < ne; x += st) { U lo = 0, hi = 0; for (int e = k; e < ne; e += st) if (e >= x) { lo |= bit(e).first; hi |= bit(e).second; } both(lo, hi); }
        if (ne <= 24 || tier == 2) for (int i = 0; i < ne; i++) for (int j = i + 1; j < ne; j++) for (int k = j + 1; k < ne; k++) both(bit(i).first | bit(j).first | bit(k).first, bit(i).second | bit(j).second | bit(k).second);
    }
    for (int n = nlo; n <= nhi; n++) for (uint64_t a : d) for (uint64_t b : d) if (a != b) for (auto& s : S) {
        const int off = 1024;
        background(page + 960, 256, 2); background(c.vec, 64, 2);
        for (int e = 0; e < ne; e++) put(e < melem ? page + off + e * m.eb : c.vec + (e - melem) * m.eb, (e < 64 ? s.first >> e : s.second >> (e - 64)) & 1 ? b : a, m.eb);
        c.res->tuples++;
        if (!c.call(m, n, off, 64)) return false;
    }
    return true;
}
// store then load returns the tuple; load then store returns the memory
static bool part_roundtrip(const Op& st, const Op& ld, int tier, Ctx& c) {
    Mem ms(st), ml(ld);
    const Dom& d = dom(kindOf(st), ms.eb == 1 ? 256 : tier == 0 ? 300 : tier == 1 ? 10000 : 200000);
    const int noff = 64 / ms.eb;
    for (size_t rot : {(size_t)1, d.size() / ms.total + 5})
        for (size_t p = 0; p < d.size(); p++) {
            const int off = 640 + (int)(p % noff) * ms.eb;
            uint8_t tup[64];
            for (int e = 0; e < ms.total; e++) put(tup + e * ms.eb, d[(p + e * rot) % d.size()], ms.eb);
            memcpy(c.vec, tup, 64); c.res->tuples++; c.res->what = (int)c.at;
            const uint8_t* a[5] = {page + off, c.vec, c.vec, c.vec, c.vec};
            memset(page + off, 0xA5, ms.foot);
            st.call(a, 0, c.out);
            memset(c.out, 0xEE, 64);
            ld.call(a, 0, c.out);
            c.res->calls += 2; c.at++;
            memcpy(c.want, tup, 64);
            if (memcmp(c.out, tup, ms.total * ms.eb)) { c.at--; return c.fail(ml, 0, off, "loading what was stored does not return the stored tuple"); }
        }
    return true;
}
// contents of the operand that a footprint could depend on: one element, a pair, a prefix, a suffix or all elements hold a telling value
struct Content { int bg; std::vector<std::pair<int, uint64_t>> set; };
static std::vector<Content> contents(const Op& op, const Mem& m, int tier) {
    std::vector<Content> r;
    for (int bg = 0; bg < 3; bg++) r.push_back(Content{bg, {}});
    const Dom& d = dom(kindOf(op), m.eb == 1 ? (tier == 0 ? 64 : 256) : tier == 0 ? 64 : tier == 1 ? 300 : 3000);
    const Dom& few = dom(kindOf(op), tier == 2 ? 12 : 6);
    const int ne = (m.store ? 0 : m.memElems()) + (m.vecArg >= 0 ? m.total : 0);
    auto range = [&](int bg, int lo, int hi, uint64_t v) { Content c{bg, {}}; for (int e = lo; e < hi; e++) c.set.push_back({e, v}); r.push_back(c); };
    for (uint64_t v : d) range(0, 0, ne, v);                                                     // all equal
    for (int bg = 0; bg < 3; bg++) for (int e = 0; e < ne; e++) for (uint64_t v : few) range(bg, e, e + 1, v);
    for (int e = 0; e < ne; e++) for (uint64_t v : d) range(2, e, e + 1, v);
    for (int bg = 0; bg < 3; bg++) for (int e = 2; e < ne; e++) for (uint64_t v : few) { range(bg, 0, e, v); range(bg, ne - e, ne, v); }
    for (int i = 0; i < ne; i++) for (int j = i + 1; j < ne; j++) for (uint64_t x : few) for (uint64_t y : few) if (tier || (x == few[0] || x == y)) r.push_back(Content{2, {{i, x}, {j, y}}});
    return r;
}
static void fill(const Mem& m, Ctx& c, int off, const Content& k) {
    background(page, W, k.bg); background(c.vec, 64, m.store ? k.bg : 2 - k.bg);
    const int me = m.store ? 0 : m.memElems();
    for (auto& s : k.set) put(s.first < me ? page + off + s.first * m.eb : c.vec + (s.first - me) * m.eb, s.second, m.eb);
    if (m.store) background(page, W, 2 - k.bg);
}
// placement against inaccessible pages, read-only sources, whole-page canaries
static bool part_guard(const Op& op, int tier, Ctx& c) {
    Mem m(op);
    const int nlo = op.immArg >= 0 ? op.immLo : 0, nhi = op.immArg >= 0 ? op.immHi : 0;
    for (int n = nlo; n <= nhi; n++) for (int bg = 0; bg < 3; bg++) {
        std::vector<int> offs;
        for (int k = 0; k < 40; k++) { offs.push_back(k * m.eb); int r = W - m.foot - k * m.eb; offs.push_back(r); }
        for (int o = 0; o < 64; o += m.eb) offs.push_back(1024 + o);
        for (int off : offs) {
            mprotect(page, W, PROT_READ | PROT_WRITE);
            background(page, W, bg); background(c.vec, 64, 2 - bg);
            if (!m.store) mprotect(page, W, PROT_READ);
            c.res->tuples++;
            if (!c.call(m, n, off, W)) return false;
        }
        if (bg) continue;
        for (const Content& k : contents(op, m, tier)) for (int off : {0, W - m.foot}) {
            mprotect(page, W, PROT_READ | PROT_WRITE);
            fill(m, c, off, k);
            if (!m.store) mprotect(page, W, PROT_READ);
            c.res->tuples++;
            if (!c.call(m, n, off, W)) return false;
        }
    }
    return true;
}
// exact bytes touched, from the instrumented build
static uintptr_t acc_lo, acc_hi, arena_lo, arena_hi; static int acc_bad, acc_kind; static long acc_off; static size_t acc_n; static bool acc_store; static uint64_t acc_cnt;
static void on_access(const void* p, size_t n, int k) {
    uintptr_t a = (uintptr_t)p;
    if (a + n <= arena_lo || a >= arena_hi) return;
    acc_cnt++;
    bool bad = a < acc_lo || a + n > acc_hi || (k == ACC_W && !acc_store);
    if (bad && !acc_bad) { acc_bad = 1; acc_kind = k; acc_off = (long)(a - acc_lo); acc_n = n; }
}
static bool part_trace(const Op& op, int tier, Ctx& c) {
    Mem m(op);
    const int nlo = op.immArg >= 0 ? op.immLo : 0, nhi = op.immArg >= 0 ? op.immHi : 0;
    arena_lo = (uintptr_t)page - W; arena_hi = arena_lo + 3 * W; acc_store = m.store; acc_bad = 0;
    bool ok = true;
    uint64_t before = acc_cnt;
    struct Place { const Content* k; int off; };
    const auto cs = contents(op, m, tier);
    std::vector<Place> places;
    for (size_t k = 0; k < cs.size(); k++) for (int off = 1024; off < 1024 + (k < 3 ? 64 : 2 * m.eb); off += m.eb) places.push_back(Place{&cs[k], off});
    for (int n = nlo; n <= nhi && ok; n++) for (size_t j = 0; j < places.size() && ok; j++) {
        const int off = places[j].off;
        fill(m, c, off, *places[j].k);
        acc_lo = (uintptr_t)page + off; acc_hi = acc_lo + m.foot;
        c.res->tuples++;
        g_access = on_access;
        ok = c.call(m, n, off, W);
        g_access = 0;
        if (acc_bad) {
            c.at--; char t[160];
            snprintf(t, sizeof t, "%s of %zu byte(s) at byte %ld of a %d byte operand", acc_kind == ACC_R ? "read" : "write", acc_n, acc_off, m.foot);
            return c.fail(m, n, off, t);
        }
    }
    c.res->distinct += acc_cnt - before;
    return ok;
}
int main(int argc, char** argv) {
    std::string lib, tsanlib, out, only, mode = "value", prop = "all"; int tier = 1; std::vector<std::string> rep;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--lib") lib = argv[++i];
        else if (a == "--tsanlib") tsanlib = argv[++i];
        else if (a == "--tier") tier = atoi(argv[++i]);
        else if (a == "--mode") mode = argv[++i];
        else if (a == "--prop") prop = argv[++i];
        else if (a == "--out") out = argv[++i];
        else if (a == "--only") only = argv[++i];
        else if (a == "--replay") { while (++i < argc) rep.push_back(argv[i]); }
    }
    register_all();
    resolve_syms(lib.c_str());
    struct Job { int op, part, other; };
    std::vector<Job> jobs;
    FILE* fo = out.empty() ? stdout : fopen(out.c_str(), "w");
    int nv = 0, nops = 0;
    for (size_t i = 0; i < g_ops.size(); i++) {
        const Op& op = g_ops[i];
        if (!op.mem.kind || (prop != "all" && prop != op.prop) || (!only.empty() && only != op.name)) continue;
        if (!rep.empty() && rep[0] != op.name) continue;
        std::string ms = missing(op);
        if (!ms.empty()) {
            if (!rep.empty()) { printf("%s is not exported\n", op.name); return 1; }
            fprintf(fo, "{\"violation\":{\"op\":\"%s\",\"kind\":\"missing\",\"what\":\"not exported under its C name: %s\"}}\n", op.name, ms.c_str()); nv++; continue;
        }
        nops++;
        if (mode == "value") {
            for (int p : {0, 1, 2, 3, 7, 8}) jobs.push_back(Job{(int)i, p, -1});
            if (op.mem.kind == 4) {
                std::string l = op.name; l[1] = 'l'; l[2] = 'd';
                for (size_t k = 0; k < g_ops.size(); k++) if (l == g_ops[k].name && missing(g_ops[k]).empty()) jobs.push_back(Job{(int)i, 4, (int)k});
            }
        } else {
            jobs.push_back(Job{(int)i, 5, -1});
            if (!tsanlib.empty()) jobs.push_back(Job{(int)i, 6, -1});
        }
    }
    if (!rep.empty()) { std::vector<Job> f; for (auto& j : jobs) if (j.part == atoi(rep[1].c_str())) f.push_back(j); jobs = f; }
    JobRes* res = (JobRes*)shared_mem(sizeof(JobRes) * (jobs.size() + 1));
    const unsigned LIM = tier == 2 ? 900 : 120;
    auto body = [&](size_t j) {
        const Op& op = g_ops[jobs[j].op];
        page = map_page();
        static Ctx c; c.res = &res[j]; c.note = res[j].note;
        if (jobs[j].part == 6) resolve_syms(tsanlib.c_str());
        bool ok = jobs[j].part < 4 ? part_value(op, jobs[j].part, tier, c) : jobs[j].part == 4 ? part_roundtrip(op, g_ops[jobs[j].other], tier, c) : jobs[j].part == 5 ? part_guard(op, tier, c) : jobs[j].part == 6 ? part_trace(op, tier, c) : jobs[j].part == 7 ? part_places(op, tier, c) : part_subsets(op, tier, c);
        if (ok) res[j].done = 1;
    };
    auto oc = run_pool(jobs.size(), 8, LIM, body);
    uint64_t tt = 0, tc = 0, td = 0, acc = 0;
    auto hex = [&](const uint8_t* p, int n) { std::string s; char t[4]; for (int i = 0; i < n; i++) { snprintf(t, 4, "%02x", p[i]); s += t; } return s; };
    for (size_t j = 0; j < jobs.size(); j++) {
        bool bad = res[j].viol || !oc[j].clean();
        tt += res[j].tuples; tc += res[j].calls; td += res[j].done; acc += res[j].distinct;
        if (!bad) continue;
        // confirm alone, with a longer limit
        JobRes first = *(JobRes*)&res[j]; Outcome fo1 = oc[j];
        memset((void*)&res[j], 0, sizeof(JobRes));
        auto o2 = run_pool(1, 1, LIM * 3, [&](size_t) { body(j); });
        if (!res[j].viol && o2[0].clean()) { if (fo1.timeout()) continue; fprintf(stderr, "%s part %d: failure did not repeat\n", g_ops[jobs[j].op].name, jobs[j].part); }
        nv++;
        const Op& op = g_ops[jobs[j].op]; Mem m(op);
        const JobRes& r = res[j].viol || !o2[0].clean() ? res[j] : first;
        std::string what = r.viol ? r.note : why(o2[0].clean() ? fo1 : o2[0]) + ", " + r.note;
        if (!rep.empty()) { printf("%s: %s\n", op.name, what.c_str()); continue; }
        int nb = std::min(64, m.store ? m.foot : m.total * m.eb);
        fprintf(fo, "{\"violation\":{\"op\":\"%s\",\"kind\":\"mem\",\"what\":\"%s\",\"part\":%d,\"case\":%d,\"n\":%d,\"got\":\"%s\",\"want\":\"%s\"}}\n", op.name, jesc(what).c_str(), jobs[j].part, r.what, r.f.n,
                r.viol ? hex(r.f.got, nb).c_str() : "", r.viol ? hex(r.f.want, nb).c_str() : "");
    }
    if (!rep.empty()) return nv ? 1 : 0;
    fprintf(fo, "{\"total\":{\"tuples\":%llu,\"calls\":%llu,\"distinct\":%d,\"jobs\":%llu,\"accesses\":%llu,\"violations\":%d}}\n", (unsigned long long)tt, (unsigned long long)tc, nops, (unsigned long long)td, (unsigned long long)acc, nv);
    fclose(fo);
    return 0;
}
