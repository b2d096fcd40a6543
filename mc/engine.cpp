// Exhaustive execution of one box of operand tuples against the reference semantics.
#include "core.hpp"
#include <dlfcn.h>
#include <stdio.h>
#include <algorithm>

int arg_bytes(const ArgInfo& a) { return a.eb * a.lanes; }
static void* find_sym(void* h, const char* name) {        // what a caller gets: a wrapper where the header does not lead to the library's symbol
    char t[80]; snprintf(t, sizeof t, "wrap__%s", name);
    void* p = dlsym(h, t); return p ? p : dlsym(h, name);
}
void resolve_syms(const char* lib) {
    void* h = dlopen(lib, RTLD_NOW | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "cannot load %s: %s\n", lib, dlerror()); exit(3); }
    for (auto& s : g_syms) *s.p = find_sym(h, s.name);
}
bool g_cross = false;
static std::vector<void*> base_ptr;                       // by symbol; reached through a map from slot to index
static std::vector<std::vector<int>> need_idx;
void resolve_base(const char* lib) {
    void* h = dlopen(lib, RTLD_NOW | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "cannot load %s: %s\n", lib, dlerror()); exit(3); }
    for (auto& s : g_syms) base_ptr.push_back(find_sym(h, s.name));
    std::vector<std::pair<void**, int>> m; for (size_t i = 0; i < g_syms.size(); i++) m.push_back({g_syms[i].p, (int)i});
    std::sort(m.begin(), m.end());
    for (auto& o : g_ops) {
        std::vector<int> v;
        for (void** const* p = o.need; *p; p++) v.push_back(std::lower_bound(m.begin(), m.end(), std::make_pair((void**)*p, 0))->second);
        need_idx.push_back(v);
    }
    g_cross = true;
}
void reference(const Op& op, const uint8_t* const* args, int n, uint8_t* out) {
    if (!g_cross) { op.ref(args, n, out); return; }
    void* keep[16]; const auto& ix = need_idx[&op - &g_ops[0]];
    for (size_t i = 0; i < ix.size(); i++) { keep[i] = *g_syms[ix[i]].p; *g_syms[ix[i]].p = base_ptr[ix[i]]; }
    op.call(args, n, out);
    for (size_t i = 0; i < ix.size(); i++) *g_syms[ix[i]].p = keep[i];
}
std::string missing(const Op& op) {
    std::string r;
    for (void** const* p = op.need; *p; p++)
        if (!**p) for (auto& s : g_syms) if (s.p == *p) { r += (r.empty() ? "" : " ") + std::string(s.name); break; }
    return r;
}
bool same_result(const Op& op, const uint8_t* g, const uint8_t* w) {
    size_t n = (size_t)op.retEb * op.retLanes;
    if (!memcmp(g, w, n)) return true;
    if (!op.nan) return false;
    for (int l = 0; l < op.retLanes; l++) {
        if (op.retEb == 4) {
            uint32_t a, b; memcpy(&a, g + 4 * l, 4); memcpy(&b, w + 4 * l, 4);
            if (a != b && !((a & 0x7fffffff) > 0x7f800000 && (b & 0x7fffffff) > 0x7f800000)) return false;
        } else {
            uint64_t a, b; memcpy(&a, g + 8 * l, 8); memcpy(&b, w + 8 * l, 8);
            if (a != b && !((a << 1) > 0xffe0000000000000ull && (b << 1) > 0xffe0000000000000ull)) return false;
        }
    }
    return true;
}
std::string args_json(const Op& op, const Fail& f) {
    std::string s = "[";
    char t[40];
    for (int i = 0; i < op.nargs; i++) {
        if (i) s += ",";
        if (op.a[i].role == 'i') { snprintf(t, sizeof t, "%d", f.n); s += t; continue; }
        s += "\"";
        for (int b = 0; b < arg_bytes(op.a[i]); b++) { snprintf(t, sizeof t, "%02x", f.args[i][b]); s += t; }
        s += "\"";
    }
    return s + "]";
}
namespace {
struct Place { uint8_t* p; int slot, comp, eb; };
inline void wr(uint8_t* p, uint64_t v, int eb) {
    switch (eb) { case 1: *p = (uint8_t)v; break; case 2: { uint16_t t = (uint16_t)v; memcpy(p, &t, 2); break; }
        case 4: { uint32_t t = (uint32_t)v; memcpy(p, &t, 4); break; } default: memcpy(p, &v, 8); }
}
struct Layout {
    std::vector<Place> vec, sca; int nslots;
    Layout(const Op& op, uint8_t (*buf)[64]) {
        nslots = 1;
        for (int i = 0; i < op.nargs; i++) if (op.a[i].role == 'v') nslots = std::max(nslots, op.a[i].mode == 'P' ? (op.a[i].lanes + op.a[i].ofs + 1) / 2 : op.a[i].lanes);
        for (int i = 0; i < op.nargs; i++) {
            const ArgInfo& a = op.a[i];
            if (a.role == 's') sca.push_back(Place{buf[i], 0, a.comp, a.eb});
            if (a.role == 'v') for (int l = 0; l < a.lanes; l++)
                vec.push_back(a.mode == 'P' ? Place{buf[i] + l * a.eb, (l + a.ofs) / 2 % nslots, a.comp + l % 2, a.eb}
                                            : Place{buf[i] + l * a.eb, (l - a.ofs + nslots) % nslots, a.comp, a.eb});
        }
    }
};
struct Exec {
    const Op& op; JobRes* res; bool trace; uint8_t* bm; uint8_t (*buf)[64]; const uint8_t* argp[5];
    alignas(16) uint8_t got[64], want[64];
    uint64_t calls = 0;
    Exec(const Op& o, JobRes* r, bool t, uint8_t* b, uint8_t (*bf)[64]) : op(o), res(r), trace(t), bm(b), buf(bf) {
        for (int i = 0; i < 5; i++) argp[i] = buf[i];
        memset(got, 0, 64); memset(want, 0, 64);
    }
    void save(int n) { memcpy(res->f.args, buf, sizeof res->f.args); res->f.n = n; }
    inline bool one(int n) {
        if (__builtin_expect(trace, 0)) save(n);
        op.call(argp, n, got);
        if (__builtin_expect(g_cross, 0)) reference(op, argp, n, want); else op.ref(argp, n, want);
        calls++;
        uint64_t h = 0x9e3779b97f4a7c15ull;
        size_t rb = (size_t)op.retEb * op.retLanes;
        bool eq = true;
        if (rb >= 8) { for (size_t i = 0; i < rb; i += 8) { uint64_t a, b; memcpy(&a, got + i, 8); memcpy(&b, want + i, 8); eq &= a == b; h = (h ^ a) * 0xff51afd7ed558ccdull; h ^= h >> 32; } }
        else { eq = !memcmp(got, want, rb); uint64_t a = 0; memcpy(&a, got, rb); h = (h ^ a) * 0xff51afd7ed558ccdull; h ^= h >> 32; }
        bm[h >> 51 & 0x1fff] |= 1 << (h & 7);
        if (__builtin_expect(trace, 0)) memcpy(res->f.got, got, 64);
        if (__builtin_expect(!eq, 0) && !same_result(op, got, want)) {
            save(n); memcpy(res->f.got, got, 64); memcpy(res->f.want, want, 64); res->viol = 1;
            return false;
        }
        return true;
    }
};
const uint64_t LB = 8192;
int nimm(const Op& op) { return op.immArg >= 0 ? op.immHi - op.immLo + 1 : 1; }
bool scalar_comp(const Op& op, int c) { for (int i = 0; i < op.nargs; i++) if (op.a[i].role == 's' && op.a[i].comp == c) return true; return false; }
}
// subsets of `pos` positions: all of them while there are at most 2^18, otherwise those with at most four members (order: by size)
static uint64_t binom(uint64_t n, int k) { uint64_t r = 1; for (int i = 0; i < k; i++) r = r * (n - i) / (i + 1); return r; }
static uint64_t pat_count(uint64_t pos) { if (pos <= 18) return 1ull << pos; uint64_t s = 0; for (int k = 0; k <= 4 && (k < 4 || pos <= 34); k++) s += binom(pos, k); return s; }
static uint64_t pattern(uint64_t pos, uint64_t i) {
    if (pos <= 18) return i;
    int k = 0; while (i >= binom(pos, k)) i -= binom(pos, k++);
    uint64_t m = 0;
    for (int q = k; q > 0; q--) { uint64_t c = q - 1; while (binom(c + 1, q) <= i) c++; i -= binom(c, q); m |= 1ull << c; }   // combinatorial number system
    return m;
}
// registers whose lanes follow a rule: progressions, alternations, palindromes, zero sums; the other operands in a rule of their own to the first
enum { NPAT = 48, NREL = 24 };
static uint64_t seq_value(const char* kind, uint64_t x, int p, int l, int L) {
    const int w = kbits(kind);
    if (kind[0] == 'f' && p < 20) {                            // in values; the other patterns in encodings
        static const double st[12] = {1, -1, 0.5, -0.5, 2, 3, 0.1, 100, -7, 1e10, 16777216, 1e-40};
        double v; if (w == 32) { float t; uint32_t u = (uint32_t)x; memcpy(&t, &u, 4); v = t; } else memcpy(&v, &x, 8);
        v = p < 12 ? v + st[p] * l : p == 12 ? v * (1 << l) : p == 13 ? v / (1 << l) : p == 14 ? (l & 1 ? -v : v) : p == 15 ? (l & 1 ? 1 / v : v) : p == 16 ? v * (l + 1) : p == 17 ? v / (l + 1) : p == 18 ? v + std::min(l, L - 1 - l) : v * v / (l + 1);
        if (w == 32) { float t = (float)v; uint32_t u; memcpy(&u, &t, 4); return u; }
        uint64_t u; memcpy(&u, &v, 8); return u;
    }
    const uint64_t one = 1, ll = l;
    static const int step[20] = {1, -1, 2, -2, 3, -3, 4, 5, 7, 8, -8, 10, 15, 16, 17, 31, 32, 64, 100, -100};
    if (p < 20) return x + ll * (uint64_t)(int64_t)step[p];
    switch (p) {
        case 20: return x + (ll << (w / 2)); case 21: return x + (ll << (w - 3)); case 22: return x + (ll << (w - 4)); case 23: return x - (ll << (w / 2 - 1));
        case 24: return x << (l % w); case 25: { uint64_t m = w == 64 ? x : x & ((one << w) - 1); return m >> (l % w); } case 26: return (uint64_t)((int64_t)(x << (64 - w)) >> (64 - w) >> (l % w)); case 27: return x << (l * w / L);
        case 28: return l & 1 ? 0 - x : x; case 29: return l & 1 ? ~x : x; case 30: return l & 1 ? x + 1 : x; case 31: return l & 1 ? x ^ one << (w - 1) : x;
        case 32: return x + std::min(l, L - 1 - l); case 33: return x - std::min(l, L - 1 - l); case 34: return x + ll * ll; case 35: return x + ll * (ll + 1) / 2;
        case 36: return x + (ll & 3); case 37: return x + ll / 2; case 38: return x + ll / 4; case 39: return x * (ll + 1);
        case 40: return l == L - 1 ? 0 - (x * (L - 1) + (uint64_t)(L - 1) * (L - 2) / 2) : x + ll;           // lanes sum to zero
        case 41: return l < L / 2 ? x + ll : 0 - (x + (L - 1 - ll)); case 42: return l < L / 2 ? x : 0 - x; case 43: return l < L / 2 ? x : ~x; case 44: return l < L / 2 ? x : x + 1;
        case 45: return l & 2 ? 0 - x : x; case 46: return x ^ (one << (l % w)); default: return x + (ll * 0x9e3779b97f4a7c15ull >> (64 - w / 2));
    }
}
static uint64_t rel_value(const char* kind, uint64_t x, int p, int q, int l, int L) {
    const int w = kbits(kind); const uint64_t top = 1ull << (w - 1);
    const bool f = kind[0] == 'f';
    auto v = [&](int k) { return seq_value(kind, x, p, k, L); };
    switch (q) {
        case 0: return v(l); case 1: return v(L - 1 - l); case 2: return f ? v(l) ^ top : 0 - v(l); case 3: return ~v(l); case 4: return v((l + 1) % L); case 5: return v((l + L / 2) % L);
        case 6: return seq_value(kind, x, (p + 1) % NPAT, l, L); case 7: return v(l) + 1; case 8: return v(l) - 1; case 9: return x;
        case 10: return 0; case 11: return dom(kind, 64)[1]; case 12: return dom(kind, 64)[2]; case 13: return dom(kind, 64)[3];
        case 14: return top - 1 - v(l); case 15: return v(L > 1 ? l ^ 1 : l); case 16: return v(l) << 1; case 17: return v(l) >> 1;
        default: return seq_value(kind, dom(kind, 64)[((q - 18) * 9 + 1) % dom(kind, 64).size()], p, l, L);
    }
}
static int data_args(const Op& op) { int n = 0; for (int i = 0; i < op.nargs; i++) n += op.a[i].role == 'v' || op.a[i].role == 's'; return n; }
static void sweep_sizes(const Op& op, const Box& b, uint64_t& n0) { (void)op; n0 = 2ull * 65536 * b.n[0]; }
uint64_t box_steps(const Op& op, const Box& b) {
    uint8_t tmp[5][64];
    Layout L(op, tmp);
    uint64_t P = 1;
    if (b.type == 4) return (1ull << 32) / L.nslots * nimm(op);
    if (b.type == 3) { sweep_sizes(op, b, P); return P * nimm(op); }
    if (b.type == 6) return dom(op.comps[0], b.n[0]).size() * NPAT * (data_args(op) > 1 ? NREL : 1) * nimm(op);
    if (b.type == 2) {
        uint64_t pos = L.vec.size() + L.sca.size();
        if (pos < 2) return 0;
        return pos * (pos - 1) / 2 * b.n[0] * b.n[0] * 3 * nimm(op);
    }
    if (b.type == 5) return pat_count(L.vec.size() + L.sca.size()) * (b.n[0] * (b.n[0] - 1)) * nimm(op);
    for (int c = 0; c < op.ncomp; c++) P *= (b.type == 1 && c == 1) ? ndiag(op.comps[1]) : dom(op.comps[c], b.n[c]).size();
    if (b.rot == 2) P = (P + L.nslots - 1) / L.nslots;
    return P * nimm(op);
}
bool run_box(const Op& op, const Box& b, uint64_t lo, uint64_t hi, JobRes* res, bool trace, uint8_t* bm) {
    alignas(16) static uint8_t buf[5][64];
    memset(buf, 0, sizeof buf);
    Layout L(op, buf);
    Exec x(op, res, trace, bm, buf);
    const int S = L.nslots, ni = nimm(op), nc = op.ncomp;
    const uint64_t total = box_steps(op, b), per = total / ni;
    uint64_t t = lo;
    bool ok = true;
    uint64_t tuples = 0;
    if (b.type == 2) {
        const uint64_t k = b.n[0];
        std::vector<Place> pl = L.vec; pl.insert(pl.end(), L.sca.begin(), L.sca.end());
        const uint64_t pos = pl.size();
        for (; t < hi && ok; t++) {
            int n = op.immLo + (int)(t / per);
            uint64_t r = t % per;
            uint64_t vb = r % k; r /= k; uint64_t va = r % k; r /= k; uint64_t bg = r % 3; r /= 3;
            uint64_t i = 0, left = r;
            while (left >= pos - 1 - i) { left -= pos - 1 - i; i++; }
            uint64_t j = i + 1 + left;
            for (uint64_t q = 0; q < pos; q++)
                wr(pl[q].p, bg == 0 ? 0 : bg == 1 ? dom(op.comps[pl[q].comp], 64)[2] : dom(op.comps[pl[q].comp], 64)[(q * 5 + 11) % 64], pl[q].eb);
            wr(pl[i].p, dom(op.comps[pl[i].comp], k)[va], pl[i].eb);
            wr(pl[j].p, dom(op.comps[pl[j].comp], k)[vb], pl[j].eb);
            ok = x.one(n); tuples++;
        }
    } else if (b.type == 6) {
        const int rels = data_args(op) > 1 ? NREL : 1;
        const Dom& d = dom(op.comps[0], b.n[0]);
        uint64_t last = ~0ull; int n = op.immLo;
        for (; t < hi && ok; t++) {
            n = op.immLo + (int)(t / per);
            const uint64_t r = t % per; const int q = (int)(r % rels), p = (int)(r / rels % NPAT); const uint64_t x0 = d[r / rels / NPAT];
            int j = 0;
            for (int i = 0; i < op.nargs; i++) {
                const ArgInfo& a = op.a[i];
                if (a.role != 'v' && a.role != 's') continue;
                const char* kd = op.comps[a.comp]; const int L = a.role == 's' ? 1 : a.lanes;
                if (j || last != r / rels) for (int l = 0; l < L; l++) wr(buf[i] + l * a.eb, j ? rel_value(kd, x0, p, (q + (j - 1) * 7) % NREL, l, L) : seq_value(kd, x0, p, l, L), a.eb);
                j++;
            }
            last = r / rels;
            ok = x.one(n); tuples++;
        }
    } else if (b.type == 5) {
        std::vector<Place> pl = L.vec; pl.insert(pl.end(), L.sca.begin(), L.sca.end());
        const uint64_t k = b.n[0], pairs = k * (k - 1), np = pat_count(pl.size());
        for (; t < hi && ok; t++) {
            int n = op.immLo + (int)(t / per);
            uint64_t r = t % per, pr = r / np, m = pattern(pl.size(), r % np), i = pr / (k - 1), j = pr % (k - 1);
            if (j >= i) j++;
            (void)pairs;
            for (size_t q = 0; q < pl.size(); q++) wr(pl[q].p, dom(op.comps[pl[q].comp], k)[m >> q & 1 ? j : i], pl[q].eb);
            ok = x.one(n); tuples++;
        }
    } else if (b.type == 4) {
        for (; t < hi && ok; t++) {
            int n = op.immLo + (int)(t / per);
            uint64_t p = t % per;
            for (auto& w : L.vec) wr(w.p, p * S + w.slot, w.eb);
            ok = x.one(n); tuples += S;
        }
    } else if (b.type == 3) {   // all upper halves x alphabet of lower halves, then the reverse
        const Dom& d = dom("u16", b.n[0]);
        const uint64_t half = 65536 * d.size(), rot = half * 2 / S + 37;
        for (; t < hi && ok; t++) {
            int n = op.immLo + (int)(t / per);
            for (auto& w : L.vec) {
                uint64_t p = (t % per + w.slot * rot) % per;
                uint64_t v = p < half ? (p % 65536) << 16 | d[p / 65536] : d[(p - half) / 65536] << 16 | (p % 65536);
                wr(w.p, v, w.eb);
            }
            ok = x.one(n); tuples++;
        }
    } else if (b.type == 0 && b.rot == 2 && nc == 2 && kbits(op.comps[0]) <= 16 && kbits(op.comps[1]) <= 16 && dom(op.comps[0], b.n[0]).size() == 1ull << kbits(op.comps[0]) && dom(op.comps[1], b.n[1]).size() == 1ull << kbits(op.comps[1]) && L.sca.empty()) {
        const int w0 = kbits(op.comps[0]);                   // every pair of narrow values: lanes take consecutive first components
        const uint64_t m0 = (1ull << w0) - 1;
        std::vector<Place> p0, p1; for (auto& w : L.vec) (w.comp ? p1 : p0).push_back(w);
        uint64_t lasty = ~0ull;
        for (; t < hi && ok; t++) {
            uint64_t p = t * S, lo0 = p & m0, y = p >> w0;
            for (auto& w : p0) wr(w.p, lo0 + w.slot, w.eb);
            if (y != lasty) { lasty = y; for (auto& w : p1) wr(w.p, y, w.eb); }
            ok = x.one(op.immLo); tuples += S;
        }
    } else {
        const Dom* D[4]; uint64_t sz[4];
        bool sc[4];
        for (int c = 0; c < nc; c++) {
            sc[c] = scalar_comp(op, c);
            if (b.type == 1 && c == 1) { D[c] = 0; sz[c] = ndiag(op.comps[1]); }
            else { D[c] = &dom(op.comps[c], b.n[c]); sz[c] = D[c]->size(); }
        }
        // inner digits: vector components; outer digits: scalar components (except in uniform boxes, where all lanes share one tuple)
        int order[4], nin = 0, k = 0;
        bool uni = b.rot == 0;
        for (int c = 0; c < nc; c++) if (uni || !sc[c]) order[k++] = c;
        nin = k;
        for (int c = 0; c < nc; c++) if (!uni && sc[c]) order[k++] = c;
        uint64_t P = 1; for (int i = 0; i < nin; i++) P *= sz[order[i]];
        uint64_t rot = uni ? 0 : b.rot == 2 ? 1 : P / S + 37, stepby = b.rot == 2 ? S : 1;
        uint64_t Pin = b.rot == 2 ? (P + S - 1) / S : P;
        std::vector<uint32_t> dig((size_t)S * 4);
        std::vector<uint64_t> val((size_t)S * 4);
        uint64_t inner = ~0ull, lastouter = ~0ull; int n = 0;
        auto setvals = [&](int s) {
            for (int i = 0; i < nin; i++) { int c = order[i]; if (D[c]) val[s * 4 + c] = (*D[c])[dig[s * 4 + c]]; }
            if (b.type == 1) val[s * 4 + 1] = diagf(op.comps[1], dig[s * 4 + 1], val[s * 4]);
        };
        const int SS = uni ? 1 : S;
        for (; t < hi && ok; t++) {
            uint64_t in = t % Pin, out = t / Pin;
            if (out != lastouter) {
                lastouter = out; inner = ~0ull;
                uint64_t o = out;
                for (int i = nin; i < nc; i++) { int c = order[i]; uint64_t v = D[c] ? (*D[c])[o % sz[c]] : 0; o /= sz[c]; for (int s = 0; s < S; s++) val[s * 4 + c] = v; }
                n = op.immLo + (int)o;
            }
            if (inner == ~0ull || in != inner + 1) {
                for (int s = 0; s < SS; s++) {
                    uint64_t p = (in * stepby + (uint64_t)s * rot) % P;
                    for (int i = 0; i < nin; i++) { int c = order[i]; dig[s * 4 + c] = p % sz[c]; p /= sz[c]; }
                    setvals(s);
                }
            } else {
                for (int s = 0; s < SS; s++) {
                    uint64_t c0 = dig[s * 4 + order[0]] + stepby;
                    int i = 0;
                    for (;;) {
                        int c = order[i];
                        if (c0 < sz[c]) { dig[s * 4 + c] = c0; break; }
                        dig[s * 4 + c] = c0 % sz[c]; uint64_t carry = c0 / sz[c];
                        if (++i >= nin) break;
                        c0 = dig[s * 4 + order[i]] + carry;
                    }
                    setvals(s);
                }
            }
            inner = in;
            if (uni) for (auto& w : L.vec) wr(w.p, val[w.comp], w.eb);
            else for (auto& w : L.vec) wr(w.p, val[w.slot * 4 + w.comp], w.eb);
            for (auto& w : L.sca) wr(w.p, val[w.comp], w.eb);
            ok = x.one(n); tuples += b.rot == 2 ? S : 1;
        }
    }
    res->calls += x.calls; res->tuples += tuples;
    return ok;
}
