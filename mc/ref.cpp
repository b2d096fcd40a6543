// Float semantics of the architecture, computed with integer arithmetic wherever the host could differ.
#include <stdlib.h>
#include "core.hpp"
#include <math.h>
static float mk(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
static bool isn(uint32_t b) { return (b & 0x7fffffffu) > 0x7f800000u; }
float ref_fmax(float a, float b) {
    uint32_t x = fbits(&a), y = fbits(&b);
    if (isn(x) || isn(y)) return mk(0x7fc00000);
    if (a == 0 && b == 0) return mk(x & y);
    return a > b ? a : b;
}
float ref_fmin(float a, float b) {
    uint32_t x = fbits(&a), y = fbits(&b);
    if (isn(x) || isn(y)) return mk(0x7fc00000);
    if (a == 0 && b == 0) return mk(x | y);
    return a < b ? a : b;
}
float ref_i2f(int32_t v) {  // nearest even, on integers
    if (!v) return mk(0);
    uint32_t s = v < 0, m = s ? 0u - (uint32_t)v : (uint32_t)v;
    int e = 31 - __builtin_clz(m);
    uint64_t w = (uint64_t)m << 32 >> e << 0;      // value scaled so that the leading one is bit 32
    // keep 24 bits: bit 32 .. bit 9, remainder bits 8..0 plus what the shift lost (nothing: e <= 31 and 32 guard bits)
    uint64_t keep = w >> 9, rem = w & 0x1ff;
    if (rem > 0x100 || (rem == 0x100 && (keep & 1))) keep++;
    if (keep >> 24) { keep >>= 1; e++; }
    return mk(s << 31 | (uint32_t)(e + 127) << 23 | ((uint32_t)keep & 0x7fffff));
}
int64_t ref_f2i(uint32_t b, int nearest, bool sg) {
    if (isn(b)) return 0;
    int64_t lo = sg ? INT32_MIN : 0, hi = sg ? (int64_t)INT32_MAX : (int64_t)UINT32_MAX;
    bool neg = b >> 31;
    int e = (b >> 23) & 0xff;
    uint64_t m = b & 0x7fffff;
    if (e == 0xff) return neg ? lo : hi;
    if (e) m |= 0x800000; else e = 1;
    int sh = e - 150;  // value = m * 2^sh
    int64_t v;
    if (sh >= 0) { if (sh > 16) return neg ? lo : hi; v = (int64_t)(m << sh); }
    else {
        int r = -sh;
        if (r > 30) v = 0;
        else {
            v = (int64_t)(m >> r);
            uint64_t rem = m & ((1ull << r) - 1), half = 1ull << (r - 1);
            if (nearest && (rem > half || (rem == half && (v & 1)))) v++;
        }
    }
    if (neg) v = -v;
    return v < lo ? lo : v > hi ? hi : v;
}
uint32_t ref_recpe(uint32_t b) {  // FPRecipEstimate, FPCR default (no flush to zero, nearest even)
    uint32_t s = b & 0x80000000u, f = b & 0x7fffff;
    int e = (b >> 23) & 0xff;
    if (e == 0xff) return f ? 0x7fc00000u : s;
    if (e == 0 && f < (1u << 21)) return s | 0x7f800000u;  // zero and |x| < 2^-128
    int re;
    if (e == 0) {
        if (f & 0x400000) f = (f << 1) & 0x7fffff; else { e = -1; f = (f << 2) & 0x7fffff; }
    }
    uint32_t a = (0x100 | (f >> 15)) * 2 + 1, t = (1u << 19) / a, est = (t + 1) / 2;
    f = (est & 0xff) << 15;
    re = 253 - e;
    if (re == 0) f = 0x400000 | f >> 1;
    else if (re == -1) { f = 0x200000 | f >> 2; re = 0; }
    return s | (uint32_t)re << 23 | f;
}
float ref_recps(float a, float b) {
    uint32_t x = fbits(&a), y = fbits(&b);
    if (isn(x) || isn(y)) return mk(0x7fc00000);
    bool xi = (x & 0x7fffffff) == 0x7f800000, yi = (y & 0x7fffffff) == 0x7f800000, xz = !(x & 0x7fffffff), yz = !(y & 0x7fffffff);
    if ((xi && yz) || (xz && yi)) return 2.0f;
    return fmaf(-a, b, 2.0f);
}
