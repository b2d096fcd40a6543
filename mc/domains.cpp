// Operand alphabets, most significant values first, and the boxes enumerated per operation.
#include "core.hpp"
#include <map>
#include <unordered_set>
#include <algorithm>

namespace {
struct Acc {
    Dom d; std::unordered_set<uint64_t> seen; uint64_t mask; size_t n;
    bool full() const { return d.size() >= n; }
    void add(uint64_t v) { v &= mask; if (!full() && seen.insert(v).second) d.push_back(v); }
};
void int_alphabet(Acc& a, int b) {
    uint64_t one = 1, top = one << (b - 1), all = b == 64 ? ~0ull : (one << b) - 1;
    for (uint64_t v : {0ull, 1ull, ~0ull, 0ull + top, (unsigned long long)(top - 1), (unsigned long long)(top + 1), 2ull, ~1ull}) a.add(v);
    a.add(all / 3); a.add(all / 3 * 2);                       // 0101.. 1010..
    a.add(0x0123456789abcdefull >> (64 - b)); a.add(0xfedcba9876543210ull >> (64 - b));
    int h = b / 2;
    for (long d : {0, -1, 1, -2, 2}) { a.add((one << h) + d); a.add(-(one << h) + d); a.add((one << (h - 1)) + d); a.add(-(one << (h - 1)) + d); a.add(top + d); }
    for (uint64_t v : {3ull, 7ull, 8ull, 9ull, 15ull, 16ull, 31ull, 32ull, 100ull}) { a.add(v); a.add(-v); }
    for (int k = 0; k < b; k++) for (long d : {0, -1, 1}) { a.add((one << k) + d); a.add(-(one << k) + d); }
    static const int pc[5] = {0, 1, 2, 3, 4};
    int cb = b / 4;                                           // four chunks, each 0, 1, max, min, -1
    uint64_t ct = one << (cb - 1), cv[5] = {0, 1, ct - 1, ct, (one << cb) - 1};
    for (int i : pc) for (int j : pc) for (int k : pc) for (int l : pc) a.add(cv[i] << 3 * cb | cv[j] << 2 * cb | cv[k] << cb | cv[l]);
    for (uint64_t v = 0; v < 130; v++) { a.add(v); a.add(-v); a.add(top + v); a.add(top - v); }
    for (int i = 0; i < b; i++) for (int j = 0; j < i; j++) { uint64_t x = one << i, y = one << j; a.add(x | y); a.add(x - y); a.add(~(x | y)); a.add(~(x - y)); }
    for (uint64_t v = 0; v < 4096; v++) { a.add(v * (all / 4096 + 1) + (v * 0x9e3779b97f4a7c15ull >> (64 - h))); }
    if (b <= 16) { for (uint64_t v = 0; v <= all; v++) a.add(v); return; }
    if (a.n >= 200000) for (uint64_t v = 0; v < 65536; v++) { a.add(v); a.add(-v); }
    for (int i = 0; i < b; i++) for (int j = 0; j < i; j++) for (int k = 0; k < j; k++) { uint64_t x = (one << i) | (one << j) | (one << k); a.add(x); a.add(~x); a.add((one << i) - (one << j) + (one << k)); a.add((one << i) - (one << j) - (one << k)); }
    for (uint64_t v = 1; !a.full(); v++) a.add(v * 0x9e3779b97f4a7c15ull >> (64 - b));
}
void f_alphabet(Acc& a, int b) {
    const int mb = b == 32 ? 23 : 52, emax = b == 32 ? 255 : 2047, bias = emax / 2;
    const uint64_t S = 1ull << (b - 1), F = (1ull << mb) - 1, q = 1ull << (mb - 1);
    auto E = [&](int e) { return (uint64_t)e << mb; };
    std::vector<uint64_t> m;
    for (uint64_t v : std::vector<uint64_t>{(uint64_t)0, E(bias), E(emax), E(emax) | q, (uint64_t)1, F, E(1), E(emax - 1) | F, E(bias) | 1, E(bias - 1) | F, E(bias) | q, E(bias + 1),
                       E(emax) | 1, E(emax) | F, E(bias - 1), E(bias) | F, E(1) | 1, E(emax - 1), q, q >> 1, E(bias + mb), E(bias + mb) | 1, E(bias + mb + 1) | 1, E(bias - mb), E(bias - mb - 1),
                       E(bias + 2) | q, E(bias + 3) | (q >> 1), (q >> 1) - 1, q + 1, E(2), E(3), E(emax - 2), E(emax - 3) | F, E(bias - mb - 2) | 1, E(bias + 31), E(bias + 30) | F, E(bias + 32) })
        { a.add(v); a.add(v | S); }
    for (uint64_t v : std::vector<uint64_t>{E(emax) | 2, E(emax) | (F ^ 1), E(emax) | q | 1, E(emax) | (0x0123456789abcdull & F), E(emax) | q | (q >> 1)}) { a.add(v); a.add(v | S); }
    std::vector<int> es;
    for (int e : {0, 1, 2, bias - 1, bias, bias + 1, emax - 2, emax - 1, bias / 2, bias / 2 - 1, bias + bias / 2, bias + bias / 2 + 1, bias - mb, bias + mb, bias - mb - 1, bias + mb + 1, bias - 2, bias + 2, bias + 8, bias - 8, bias + 12, bias - 12, mb, mb + 1, emax - mb}) es.push_back(e);
    std::vector<uint64_t> ms = {0, 1, F, q, q - 1, q + 1, F - 1, F / 3, F / 3 * 2, 2, 3, q >> 1, q | (q >> 1), (1ull << (mb / 2)), (1ull << (mb / 2)) - 1, F ^ ((1ull << (mb / 2)) - 1), 0x13579bdf02468aull & F, F - 2};
    for (int pass = 0; pass < 3; pass++) {
        size_t nm = pass == 0 ? 6 : pass == 1 ? 12 : ms.size();
        for (size_t i = 0; i < nm; i++) for (int e : es) { a.add(E(e) | ms[i]); a.add(E(e) | ms[i] | S); }
    }
    for (int k = 0; k < b; k++) { a.add(1ull << k); a.add(~(1ull << k)); a.add((1ull << k) - 1); }
    for (int e = 0; e <= emax; e += (b == 32 ? 1 : 7)) for (uint64_t mm : {(uint64_t)0, F, q, (uint64_t)1}) { a.add(E(e) | mm); a.add(E(e) | mm | S); }
    for (int k = 0; k < mb; k++) for (int e : es) { a.add(E(e) | (1ull << k)); a.add(E(e) | (F ^ (1ull << k))); a.add(S | E(e) | (1ull << k)); }
    for (int e = 0; e <= emax; e++) for (uint64_t mm : ms) { a.add(E(e) | mm); a.add(E(e) | mm | S); }
    for (int e = 0; e <= emax; e++) for (int k = 0; k < mb; k++) { a.add(E(e) | (1ull << k)); a.add(S | E(e) | (F ^ (1ull << k))); }
    for (uint64_t v = 1; !a.full(); v++) a.add(v * 0x9e3779b97f4a7c15ull >> (64 - b));
}
}
const Dom& dom(const std::string& kind, size_t n) {
    int b = kbits(kind.c_str());
    char c = kind[0];
    if (b == 8 && n > 256) n = 256;
    if (b == 16 && n > 65536) n = 65536;
    static std::map<std::pair<std::string, size_t>, Dom> cache;
    auto key = std::make_pair(std::string(c == 'f' ? "f" : "i") + std::to_string(b), n);
    auto it = cache.find(key);
    if (it != cache.end()) return it->second;
    Acc a; a.n = n; a.mask = b == 64 ? ~0ull : (1ull << b) - 1; a.d.reserve(n);
    if (b == 8 && n >= 256) for (int v = 0; v < 256; v++) a.add(v);
    else if (b == 16 && n >= 65536) for (int v = 0; v < 65536; v++) a.add(v);
    else if (c == 'f') f_alphabet(a, b);
    else int_alphabet(a, b);
    return cache[key] = a.d;
}
// second operand as a function of the first: the neighbourhoods of every carry, borrow, equality and cancellation
int ndiag(const std::string& k) { return k[0] == 'f' ? 16 : 5 * 7 + 3; }
uint64_t diagf(const std::string& k, int j, uint64_t x) {
    int b = kbits(k.c_str());
    uint64_t all = b == 64 ? ~0ull : (1ull << b) - 1, top = 1ull << (b - 1), v;
    if (k[0] == 'f') {
        static const long d[8] = {0, 1, -1, 2, -2, 3, 1 << 20, -(1 << 20)};
        v = x + d[j % 8];
        if (j >= 8) v ^= top;
        return v & all;
    }
    if (j < 35) {
        long d = (long)(j % 7) - 3;
        switch (j / 7) {
            case 0: v = x + d; break;                 // equality
            case 1: v = 0 - x + d; break;             // sum zero / unsigned carry
            case 2: v = (top - 1) - x + d; break;     // signed overflow of the sum
            case 3: v = x + top + d; break;           // signed overflow of the difference
            default: v = x - (x >> 1) + d; break;     // half
        }
    } else v = j == 35 ? ~x : j == 36 ? (x << (b / 2)) | (x & all) >> (b / 2) : x * x;
    return v & all;
}

static size_t sizefor(const char* k, size_t s16, size_t s32, size_t s64) {
    int b = kbits(k);
    return b == 8 ? 256 : b == 16 ? s16 : b == 32 ? s32 : s64;
}
static std::vector<Box> full_boxes(const Op& op, int tier);
std::vector<Box> make_boxes(const Op& op, int tier) {      // tier 3: the boxes of tier 1, the largest cut to 200000 steps (per immediate), without the complete sweeps
    const bool law = !strcmp(op.prop, "C23") || !strcmp(op.prop, "C24") || !strcmp(op.prop, "C26") || !strcmp(op.prop, "C21") || strchr(op.name, ' ');
    std::vector<Box> all = full_boxes(op, tier == 3 ? 1 : tier), r;
    const bool moves = tier == 1 && (!strcmp(op.prop, "C04") || !strcmp(op.prop, "C05") || !strcmp(op.prop, "C11") || !strcmp(op.prop, "C12") || !strcmp(op.prop, "C14"));   // wrapping arithmetic, logic and moves: complete sweeps in the thorough tier only
    for (auto& b : all) if (!((tier == 3 || moves || (law && tier == 1)) && (b.type == 4 || (b.type == 0 && b.rot == 2)))) r.push_back(b);
    if (tier != 3 && !(law && tier == 1)) return r;
    const double CAP = tier == 3 ? 200000 : !strcmp(op.prop, "C26") ? 1000000 : 4000000;
    for (auto& b : r) {
        if (b.type == 3) b.n[0] = std::min(b.n[0], (size_t)6);
        if (b.type == 2) b.n[0] = std::min(b.n[0], (size_t)12);
        if (b.type == 5) b.n[0] = std::min(b.n[0], (size_t)(tier == 3 ? 2 : 3));
        if (b.type == 6) b.n[0] = std::min(b.n[0], (size_t)(tier == 3 ? 16 : op.ncomp == 1 ? 800 : 60));
        if (b.type > 1) continue;
        auto steps = [&] { double p = 1; for (size_t c = 0; c < b.n.size(); c++) p *= b.type == 1 && c == 1 ? ndiag(op.comps[1]) : dom(op.comps[c], b.n[c]).size(); return p; };
        while (steps() > CAP) { size_t k = b.n[0] ? 0 : 1; for (size_t c = 0; c < b.n.size(); c++) if (b.n[c] && dom(op.comps[c], b.n[c]).size() > dom(op.comps[k], b.n[k]).size()) k = c; b.n[k] = dom(op.comps[k], b.n[k]).size() * 3 / 4; }
    }
    return r;
}
static std::vector<Box> full_boxes(const Op& op, int tier) {
    std::vector<Box> r;
    int nc = op.ncomp;
    bool hasimm = op.immArg >= 0, unary32 = false, scal = false;
    for (int i = 0; i < op.nargs; i++) if (op.a[i].role == 's') scal = true;
    int maxb = 0; for (int i = 0; i < nc; i++) maxb = std::max(maxb, kbits(op.comps[i]));
    bool fu = nc == 1 && !strcmp(op.comps[0], "f32u");
    (void)unary32;
    auto full = [&](size_t s16, size_t s32, size_t s64, int rot) {
        Box b; b.type = 0; b.rot = rot;
        for (int i = 0; i < nc; i++) b.n.push_back(sizefor(op.comps[i], s16, s32, s64));
        r.push_back(b);
    };
    int T = tier;
    const bool c16 = !strcmp(op.prop, "C16");               // few operations
    const size_t himm = !strcmp(op.prop, "C08") || !strcmp(op.prop, "C09") ? 3000000 : 400000;
    if (nc == 1) {
        const bool sweep = maxb == 32 && (T == 2 || !hasimm) && T >= 1;
        if (sweep && !scal) r.push_back(Box{{0}, 4, 2});                                  // every 32-bit lane value (and immediate)
        if (T == 0) full(4096, 2000, 2000, 1);
        else full(65536, T == 2 ? 4000000 : hasimm ? himm : 1000000, T == 2 ? 4000000 : hasimm ? himm : 1000000, 1);
        if (maxb == 32 && hasimm && T == 1) r.push_back(Box{{24}, 3, 1});
        if (maxb == 32 && scal && T >= 1) r.push_back(Box{{(size_t)(T == 2 ? 96 : 24)}, 3, 1});
        full(300, 300, 300, 0);
    } else if (nc == 2) {
        if (maxb == 8) { full(0, 0, 0, 1); full(0, 0, 0, 0); }
        else {
            size_t m = T == 0 ? 60 : T == 1 ? (hasimm ? 1400 : c16 ? 9000 : 4000) : (hasimm ? 3000 : 14000);
            full(m, m, m, 1);
            full(T == 0 ? 24 : 200, T == 0 ? 24 : 200, T == 0 ? 24 : 200, 0);
            if (T >= 1 && !hasimm) {   // large x small and small x large
                size_t big = T == 1 ? 300000 : 4000000, sm = 60;
                Box b; b.type = 0; b.rot = 1;
                auto bs = [&](int i, size_t k) { int w = kbits(op.comps[i]); return w == 8 ? (size_t)256 : w == 16 ? (k == big ? (size_t)65536 : k) : k; };
                b.n = {bs(0, big), bs(1, sm)}; r.push_back(b);
                b.n = {bs(0, sm), bs(1, big)}; r.push_back(b);
                if (maxb == 16 && (!scal || T == 2)) r.push_back(Box{{65536, 65536}, 0, scal ? 1 : 2});   // every pair
            }
        }
        Box d; d.type = 1; d.rot = scal ? 0 : 1;
        d.n = {sizefor(op.comps[0], T == 0 ? 500 : 65536, T == 0 ? 500 : T == 1 ? (hasimm ? 40000 : 200000) : 2000000, T == 0 ? 500 : T == 1 ? (hasimm ? 40000 : 200000) : 2000000), 0};
        r.push_back(d);
    } else {
        size_t m = T == 0 ? 14 : T == 1 ? (c16 ? 420 : 260) : 900;
        if (maxb == 8) {
            if (T == 0) { Box b; b.type = 0; b.rot = 1; b.n = {16, 64, 256}; r.push_back(b); }
            else full(0, 0, 0, 1);
        } else {
            Box b; b.type = 0; b.rot = 1;
            for (int i = 0; i < nc; i++) b.n.push_back(kbits(op.comps[i]) == 8 ? (T == 0 ? 20 : 256) : m);
            r.push_back(b);
            for (int rep = 0; rep < nc && T >= 1; rep++) {   // one component large, the others tiny
                Box c; c.type = 0; c.rot = 1;
                for (int i = 0; i < nc; i++) c.n.push_back(i == rep ? sizefor(op.comps[i], 65536, T == 1 ? 20000 : 400000, T == 1 ? 20000 : 400000) : (size_t)24);
                r.push_back(c);
            }
            Box u; u.type = 0; u.rot = 0;
            for (int i = 0; i < nc; i++) u.n.push_back(T == 0 ? 8 : 30);
            r.push_back(u);
        }
        Box d; d.type = 1; d.rot = scal ? 0 : 1;
        d.n = {sizefor(op.comps[0], T == 0 ? 100 : 6000, T == 0 ? 100 : 6000, T == 0 ? 100 : 6000), 0};
        for (int i = 2; i < nc; i++) d.n.push_back(T == 0 ? 12 : 20);
        r.push_back(d);
    }
    // lane pairs: every pair of lanes of the vector operands takes every pair of tiny-alphabet values over three backgrounds
    r.push_back(Box{{(size_t)(T == 0 ? 3 : T == 1 ? (hasimm ? 16 : 32) : 64)}, 2, 0});
    // two-valued registers: every way (up to 2^18, otherwise up to four changed lanes) to give each lane one of two values
    if (T >= 1) r.push_back(Box{{(size_t)(T == 1 ? (hasimm ? 4 : 5) : 10)}, 5, 0});
    // registers whose lanes follow a rule
    r.push_back(Box{{(size_t)(T == 0 ? 12 : T == 1 ? (hasimm ? 60 : nc == 1 ? 4000 : 300) : 6000)}, 6, 0});
    return r;
}
