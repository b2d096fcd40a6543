// Shared declarations: operation table, exact reference helpers, operand domains.
#pragma once
#include "neon_sim.h"
// neon_sim.h defines these for any host; keep them away from system headers
#undef __ARM_NEON
#undef __aarch64__
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>

typedef __int128 X;  // exact integer of the reference model

// Y is X, or a 64-bit integer where no operand is wider than 16 bits
template <class T, class Y> static inline T SAT(Y x) {
    const bool sg = (T)-1 < (T)0;
    const int b = sizeof(T) * 8;
    Y lo = sg ? -((Y)1 << (b - 1)) : 0, hi = sg ? ((Y)1 << (b - 1)) - 1 : b == 64 ? (Y)(X)(uint64_t)-1 : ((Y)1 << (b % 64)) - 1;
    return (T)(x < lo ? lo : x > hi ? hi : x);
}
template <class Y> static inline Y SHR(Y x, int n) { return x >> n; }                          // floor(x / 2^n)
template <class Y> static inline Y RSHR(Y x, int n) { return (x + ((Y)1 << (n - 1))) >> n; }   // floor(x / 2^n + 1/2)
template <class T> static inline void CP(T* d, const T* s) { memcpy(d, s, sizeof(T)); }
static inline uint32_t fbits(const float* p) { uint32_t r; memcpy(&r, p, 4); return r; }
// register glue used by the laws: plain memory copies, no library code
template <class D, class Q> static inline D LO(const Q& q) { D d; memcpy(&d, &q, sizeof d); return d; }
template <class D, class Q> static inline D HI(const Q& q) { D d; memcpy(&d, (const char*)&q + sizeof d, sizeof d); return d; }
template <class Q, class D> static inline Q CAT(const D& a, const D& b) { Q q; memcpy(&q, &a, sizeof a); memcpy((char*)&q + sizeof a, &b, sizeof b); return q; }
// a copy of `a` at an address that is aligned for its elements and for nothing more
template <class E, class T> static inline E* OFFP(const T& a) { alignas(64) static uint8_t b[256]; uint8_t* p = b + 64 + sizeof(E); memcpy(p, &a, sizeof a); return (E*)p; }
template <class V, class T> static inline V SPLAT(T t) { V v; for (unsigned i = 0; i < sizeof v / sizeof t; i++) memcpy((char*)&v + i * sizeof t, &t, sizeof t); return v; }
template <class D, class S> static inline D BITS(const S& s) { static_assert(sizeof(D) == sizeof(S), "size"); D d; memcpy(&d, &s, sizeof d); return d; }
template <class T> static inline T REVL(const T& a) { T r; const unsigned n = sizeof a.val / sizeof a.val[0]; for (unsigned i = 0; i < n; i++) memcpy(&r.val[i], &a.val[n - 1 - i], sizeof a.val[0]); return r; }
template <class T> static inline T NEGF(const T& a) { T r = a; for (unsigned i = 0; i < sizeof a.val / sizeof a.val[0]; i++) ((unsigned char*)&r.val[i])[sizeof a.val[0] - 1] ^= 0x80; return r; }
static inline float32x4_t NONAN(float32x4_t a) { for (int i = 0; i < 4; i++) if (a.val[i] != a.val[i]) a.val[i] = 0; return a; }
// float reference semantics (ref.cpp)
float ref_fmax(float a, float b);
float ref_fmin(float a, float b);
float ref_i2f(int32_t v);
int64_t ref_f2i(uint32_t bits, int nearest, bool sg);
uint32_t ref_recpe(uint32_t bits);
float ref_recps(float a, float b);

struct ArgInfo {
    char role;      // v s i p w
    char mode;      // L lane aligned, P lane pairs
    int eb;         // element bytes
    int lanes;      // lanes over all vectors of the argument
    int comp, ofs;
};
struct MemInfo { int kind; int n; int lanes; int eb; };  // kind 0 none,1 ld,2 dup,3 ldl,4 st,5 stl ; lanes per vector
typedef void (*CallFn)(const uint8_t* const* args, int n, uint8_t* out);
struct Op {
    const char* name;
    const char* prop;
    int nargs;
    ArgInfo a[5];
    int retEb, retLanes; char retKind;   // retKind s/u/f, 0 = void
    int nan;                             // 1: NaN results compare as a class
    int immArg, immLo, immHi;            // immArg -1 = none
    int ncomp; const char* comps[4];
    MemInfo mem;
    CallFn call, ref;
    void** const* need;                  // null terminated list of function pointer slots the call uses
};
extern std::vector<Op> g_ops;            // filled by generated registration code
struct Sym { const char* name; void** p; };
extern std::vector<Sym> g_syms;
void register_all();
void resolve_syms(const char* lib);
void resolve_base(const char* lib);      // second library: becomes the reference of every operation (cross-build comparison)
void reference(const Op& op, const uint8_t* const* args, int n, uint8_t* out);
extern bool g_cross;
std::string missing(const Op& op);       // names of intrinsics the op needs and the library does not export

// ---- operand domains
typedef std::vector<uint64_t> Dom;
const Dom& dom(const std::string& kind, size_t n);  // the n most significant values of the kind's alphabet
struct Box {
    std::vector<size_t> n;   // alphabet size per component (0: diag component)
    int type;                // 0 product, 1 diag (comp1 = f_j(comp0)), 2 lane-pair, 3 split sweep (32 bit), 4 complete 32 bit, 5 two-valued registers
    int rot;                 // rotation of neighbouring lanes: 1 spread, 0 uniform, 2 packed
};
std::vector<Box> make_boxes(const Op& op, int tier);   // tier 0 mini 1 quick 2 thorough
int ndiag(const std::string& kind);
uint64_t diagf(const std::string& kind, int j, uint64_t x);
static inline int kbits(const char* k) { return atoi(k + 1); }

// ---- box runner: calls sink(args,n) style loop internally
struct Fail { uint8_t args[5][64]; int n; uint8_t got[64], want[64]; };
struct JobRes {
    volatile uint64_t tuples, calls, distinct; volatile int viol; int done;
    Fail f; int what; char note[200];
};
uint64_t box_steps(const Op& op, const Box& b);
// runs steps [lo,hi) of the box; returns false at the first mismatch (res filled).
bool run_box(const Op& op, const Box& b, uint64_t lo, uint64_t hi, JobRes* res, bool trace, uint8_t* bitmap);
bool same_result(const Op& op, const uint8_t* got, const uint8_t* want);
int arg_bytes(const ArgInfo& a);
std::string args_json(const Op& op, const Fail& f);
// 1 where |a*r - 1| is within 4 units in the last place, or where a or its reciprocal is not a comfortably normal number
static inline uint32x4_t nr_close(float32x4_t a, float32x4_t r) {
    uint32x4_t o;
    for (int i = 0; i < 4; i++) {
        uint32_t e = fbits(&a.val[i]) >> 23 & 0xff;
        double d = (double)a.val[i] * (double)r.val[i] - 1.0;
        o.val[i] = e < 3 || e > 250 || (d < 4.8e-7 && d > -4.8e-7);
    }
    return o;
}
