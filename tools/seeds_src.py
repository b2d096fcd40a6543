"""Planted changes: each breaks one property while building and passing the repository's tests."""
H = '#include "neon_sim.h"\n#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <stdint.h>\n#include <math.h>\n#include <thread>\n#include <atomic>\n#include <sys/mman.h>\n#include <unistd.h>\n#include <sys/wait.h>\n#include <fenv.h>\n#include <initializer_list>\n'
SEEDS = []
def S(**k):
    k['demo'] = H + k['demo']; SEEDS.append(k)
def F(func, body, pre=''): return {'func': func, 'body': body, 'pre': pre}

# ------------------------------------------------------------------ memory
S(id='c21-aligned-load', property='C21', edits=[F('vld4_s16', '''
    typedef int16_t vec __attribute__((vector_size(16), may_alias));
    const vec even = *(vec const*)ptr;
    const vec odd = *(vec const*)(ptr + 8);
    int16x4x4_t r;
    for (int k = 0; k < 4; k++)
    {
        r.val[k].val[0] = even[k];
        r.val[k].val[1] = even[4 + k];
        r.val[k].val[2] = odd[k];
        r.val[k].val[3] = odd[4 + k];
    }
    return r;''')],
  needs='a source pointer that is aligned for its elements but not for 16 bytes', breaks='vld4_s16 loads with aligned vector accesses: undefined for int16_t pointers that are not 16-byte aligned; gcc -O2 scalarises it, an -O0 build faults',
  sh='''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd); tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++11 -O0 -w -I. "$here/demo.cpp" *.cpp -o "$tmp/demo" -lm -pthread || exit 2
cd "$tmp" && ./demo
''',
  demo='''
int main() {
    alignas(64) int16_t b[64]; for (int i = 0; i < 64; i++) b[i] = i * 257 - 5000;
    for (int o = 0; o < 32; o++) { int16x4x4_t v = vld4_s16(b + o); for (int i = 0; i < 16; i++) if (v.val[i % 4].val[i / 4] != b[o + i]) return 1; }
    return 0;
}''')
S(id='c01-dup-sum', property='C01', edits=[F('vld1q_dup_f32', '''
    float32x4_t r;
    float32_t zero = 0.0f;
    for (int i = 0; i < 4; i++)
    {
        r.val[i] = zero + *ptr;
    }
    return r;''')],
  needs='a source element that is -0.0f (or a signalling NaN)', breaks='vld1q_dup_f32 passes the element through an addition, which turns -0 into +0',
  demo='''
int main() {
    float z = -0.0f; uint32_t u[4]; float32x4_t v = vld1q_dup_f32(&z); memcpy(u, v.val, 16);
    for (int i = 0; i < 4; i++) if (u[i] != 0x80000000u) return 1;
    return 0;
}''')
S(id='c02-vld2-s8-sign', property='C02', edits=[F('vld2_s8', '''
    int8x8x2_t r;
    for (int i = 0; i < 8; i++)
    {
        uint16_t w = (uint16_t)(ptr[2 * i] | (ptr[2 * i + 1] << 8));
        r.val[0].val[i] = (int8_t)w;
        r.val[1].val[i] = (int8_t)(w >> 8);
    }
    return r;''')],
  needs='a negative element at an even position whose neighbour is not -1', breaks='vld2_s8 packs each pair into 16 bits without masking the sign extension of the first byte, so the second stream becomes -1',
  demo='''
int main() {
    int8_t p[16]; for (int i = 0; i < 16; i++) p[i] = i * 37 - 70;
    int8x8x2_t v = vld2_s8(p);
    for (int i = 0; i < 8; i++) if (v.val[0].val[i] != p[2 * i] || v.val[1].val[i] != p[2 * i + 1]) return 1;
    return 0;
}''')
S(id='c02-lane-tail', property='C02', edits=[F('vld3_lane_u8', '''
    if (lane < 0 || lane > 7)
    {
        fprintf(stderr, "%s: param n not in range [0, 7]\\n", __FUNCTION__);
        abort();
    }
    uint8x8x3_t r;
    memcpy(&r, &src, sizeof(r));
    uint8_t* flat = &r.val[0].val[lane];
    for (int i = 0; i < 3; i++, flat += 7)
    {
        *flat = ptr[i];
        flat++;
        if (lane == 7 && i == 1) flat--;
    }
    return r;''')],
  needs='lane 7', breaks='vld3_lane_u8 walks the flattened registers and lands on the wrong byte of the third register for lane 7',
  demo='''
int main() {
    for (int l = 0; l < 8; l++) {
        uint8_t p[3] = {201, 202, 203}; uint8x8x3_t s; for (int k = 0; k < 24; k++) s.val[k / 8].val[k % 8] = k;
        uint8x8x3_t r = vld3_lane_u8(p, s, l);
        for (int k = 0; k < 3; k++) for (int i = 0; i < 8; i++) if (r.val[k].val[i] != (i == l ? 201 + k : k * 8 + i)) return 1;
    }
    return 0;
}''')
PAGE = '''
static uint8_t* page_end() { long g = sysconf(_SC_PAGESIZE); uint8_t* b = (uint8_t*)mmap(0, 2 * g, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (b == MAP_FAILED || mprotect(b + g, g, PROT_NONE)) exit(2); return b + g; }
'''
S(id='c03-vld3-overread', property='C03', edits=[F('vld3_u8', '''
    uint8x8x3_t r;
    // two 16 byte chunks, then pick the elements from registers
    uint8_t chunk[32];
    memcpy(chunk, ptr, 16);
    memcpy(chunk + 16, ptr + 16, 16);
    for (int i = 0; i < 8; i++)
    {
        r.val[0].val[i] = chunk[3 * i + 0];
        r.val[1].val[i] = chunk[3 * i + 1];
        r.val[2].val[i] = chunk[3 * i + 2];
    }
    return r;''')],
  needs='a 24 byte buffer that ends at a page boundary', breaks='vld3_u8 reads 32 bytes instead of 24', 
  demo=PAGE + '''
int main() { volatile uint8_t sink = 0; uint8_t* e = page_end(); for (int i = 1; i <= 24; i++) e[-i] = i; for (int o = 24; o < 60; o++) { uint8x8x3_t v = vld3_u8(e - o); for (int k = 0; k < 24; k++) { sink += v.val[k % 3].val[k / 3]; if (v.val[k % 3].val[k / 3] != e[-o + k]) return 1; } } return 0; }''')
S(id='c03-vst2-rmw', property='C03', edits=[F('vst2_s16', '''
    // write whole 16 byte blocks; the tail of the last one is put back unchanged
    const int n = 4;
    int16_t block[16];
    memcpy(block, ptr, sizeof(block));
    for (int i = 0; i < n; i++)
    {
        block[2 * i + 0] = val.val[0].val[i];
        block[2 * i + 1] = val.val[1].val[i];
    }
    memcpy(ptr, block, sizeof(block));''')],
  needs='a 16 byte destination at the end of a page, or another writer of the following 16 bytes', breaks='vst2_s16 rewrites the 16 bytes after its destination with the values it read there',
  demo=PAGE + '''
int main() { int16_t* e = (int16_t*)page_end(); int16x4x2_t v; for (int i = 0; i < 8; i++) v.val[i % 2].val[i / 2] = i - 3; vst2_s16(e - 8, v); for (int i = 0; i < 8; i++) if (e[i - 8] != i - 3) return 1; return 0; }''')

# ------------------------------------------------------------------ integer arithmetic
S(id='c04-vmla-double', property='C04', edits=[F('vmlaq_u32', '''
    uint32x4_t D;
    for (int i = 0; i < 4; i++)
    {
        D.val[i] = (uint32_t)(uint64_t)((double)N.val[i] + (double)M.val[i] * (double)P.val[i]);
    }
    return D;''')],
  needs='a lane whose product exceeds 2^53 and whose low bits do not vanish', breaks='vmlaq_u32 accumulates in double precision and loses the low bits of large products',
  demo='''
int main() {
    uint32_t c[6] = {3, 65537, 0x7fffffff, 0xffffffff, 0x12345679, 100};
    for (uint32_t x : c) for (uint32_t y : c) for (uint32_t z : c) {
        uint32x4_t a, b, d; for (int i = 0; i < 4; i++) { a.val[i] = x; b.val[i] = y; d.val[i] = z; }
        uint32x4_t r = vmlaq_u32(a, b, d); if (r.val[2] != (uint32_t)(x + y * z)) return 1;
    }
    return 0;
}''')
S(id='c05-quarter-squares', property='C05', edits=[F('vmull_s8', '''
    int16x8_t r;
    for (int i = 0; i < 8; i++)
    {
        // a * b = ((a + b)^2 - (a - b)^2) / 4
        const int s = a.val[i] + b.val[i];
        const int d = a.val[i] - b.val[i];
        const uint16_t s2 = (uint16_t)(s * s);
        const uint16_t d2 = (uint16_t)(d * d);
        r.val[i] = (int16_t)(((int)s2 - (int)d2) / 4);
    }
    return r;''')],
  needs='both operands -128 in the same lane', breaks='vmull_s8 squares the sum in 16 bits, which wraps only for (-128) + (-128)',
  demo='''
int main() {
    for (int x = -128; x < 128; x++) for (int y = -128; y < 128; y++) {
        int8x8_t a, b; for (int i = 0; i < 8; i++) { a.val[i] = x; b.val[i] = y; }
        int16x8_t r = vmull_s8(a, b); for (int i = 0; i < 8; i++) if (r.val[i] != x * y) return 1;
    }
    return 0;
}''')
S(id='c05-high-index', property='C05', edits=[F('vaddl_high_s16', '''
    int32x4_t r;
    const int ofs = 8 / 2;
    for (int i = 0; i < 4; i++)
    {
        // sign extend by hand
        const int32_t x = (a.val[ofs + i] & 0x7fff) - (a.val[ofs + i] & 0x8000);
        const int32_t y = (b.val[ofs + i] & 0x7fff) - (b.val[i] & 0x8000);
        r.val[i] = x + y;
    }
    return r;''')],
  needs='a lane whose low-half and high-half elements of b differ in sign', breaks='vaddl_high_s16 takes the sign of the widened second element from the low half',
  demo='''
int main() {
    int16x8_t a, b; for (int i = 0; i < 8; i++) { a.val[i] = 1000 * i - 3000; b.val[i] = (i % 3 ? -1 : 1) * (i * 1111 + 5); }
    int32x4_t r = vaddl_high_s16(a, b); for (int i = 0; i < 4; i++) if (r.val[i] != a.val[4 + i] + b.val[4 + i]) return 1;
    return 0;
}''')
S(id='c06-hsub-trunc', property='C06', edits=[F('vhsub_s16', '''
    int16x4_t D;
    for (int i = 0; i < 4; i++)
    {
        D.val[i] = (N.val[i] - M.val[i]) / 2;
    }
    return D;''')],
  needs='an odd negative difference', breaks='vhsub_s16 rounds toward zero instead of toward minus infinity',
  demo='''
int main() {
    for (int x = -32768; x < 32768; x += 7) { int16x4_t a, b; for (int i = 0; i < 4; i++) { a.val[i] = x; b.val[i] = 5 - i; }
        int16x4_t r = vhsub_s16(a, b); for (int i = 0; i < 4; i++) { int d = x - (5 - i); if (r.val[i] != (int16_t)(d >> 1)) return 1; } }
    return 0;
}''')
S(id='c07-sub-as-add', property='C07', edits=[F('vqsub_s16', '''
    int16x4_t D;
    for (size_t i = 0; i < 4; i++)
    {
        // a - b = a + (-b)
        const int16_t neg = (int16_t)(-M.val[i]);
        int32_t temp = (int32_t)N.val[i] + neg;
        temp = std::max<int32_t>(temp, INT16_MIN);
        temp = std::min<int32_t>(temp, INT16_MAX);
        D.val[i] = (int16_t)temp;
    }
    return D;''')],
  needs='a subtrahend of -32768', breaks='vqsub_s16 negates the second operand in 16 bits, so subtracting -32768 subtracts 32768',
  demo='''
int main() {
    int c[7] = {-32768, -32767, -1, 0, 1, 32766, 32767};
    for (int x : c) for (int y : c) { int16x4_t a, b; for (int i = 0; i < 4; i++) { a.val[i] = x; b.val[i] = y; }
        int d = x - y; d = d > 32767 ? 32767 : d < -32768 ? -32768 : d; if (vqsub_s16(a, b).val[3] != d) return 1; }
    return 0;
}''')
S(id='c07-movun-window', property='C07', edits=[F('vqmovun_s16', '''
    uint8x8_t r;
    for (int i = 0; i < 8; i++)
    {
        // in range exactly when the high byte is zero; otherwise the sign decides
        const int v = a.val[i];
        r.val[i] = (v & 0x7f00) ? (uint8_t)(~v >> 31) : (uint8_t)v;
    }
    return r;''')],
  needs='a lane in [-32768, -32513]', breaks='vqmovun_s16 tests the high byte without its sign bit, so values near -32768 are returned unclamped',
  demo='''
int main() {
    for (int x = -32768; x < 32768; x++) { int16x8_t a; for (int i = 0; i < 8; i++) a.val[i] = x; if (vqmovun_s16(a).val[5] != (x < 0 ? 0 : x > 255 ? 255 : x)) return 1; }
    return 0;
}''')
S(id='c08-split-shift', property='C08', edits=[F('vshrn_n_u64', '''
    if (n < 1 || n > 32)
    {
        fprintf(stderr, "%s: param n not in range [1, 8]\\n", __FUNCTION__);
        abort();
    }

    uint32x2_t r;
    for (int i = 0; i < 2; i++)
    {
        // only 32 bits survive: build them from the two words, as on a 32-bit machine
        const uint32_t lo = (uint32_t)a.val[i];
        const uint32_t hi = (uint32_t)(a.val[i] >> 32);
        r.val[i] = (lo >> (n & 31)) | (hi << ((32 - n) & 31));
    }
    return r;''')],
  needs='the shift amount 32', breaks='vshrn_n_u64 masks the word shifts to 5 bits, so for n = 32 it ors the low word into the high one',
  demo='''
int main() {
    for (int n = 1; n <= 32; n++) { uint64x2_t a; a.val[0] = 0x8123456789abcdefull; a.val[1] = 0x00ff00ff12345678ull; uint32x2_t r = vshrn_n_u64(a, n); for (int i = 0; i < 2; i++) if (r.val[i] != (uint32_t)(a.val[i] >> n)) return 1; }
    return 0;
}''')
S(id='c09-round-i16', property='C09', edits=[{'old': 'int16_t temp = (v.val[i] + (1 << (n - 1))) >> n;', 'new': 'int16_t temp = v.val[i];\n        temp += (int16_t)(1 << (n - 1));\n        temp >>= n;'}],
  needs='a lane close to 32767', breaks='vqrshrun_n_s16 rounds in 16 bits, so the largest inputs wrap negative and clamp to 0 instead of 255',
  demo='''
int main() {
    for (int n = 1; n <= 8; n++) for (int x = -32768; x < 32768; x++) { int16x8_t a; for (int i = 0; i < 8; i++) a.val[i] = x; int w = (x + (1 << (n - 1))) >> n; w = w < 0 ? 0 : w > 255 ? 255 : w; if (vqrshrun_n_s16(a, n).val[7] != w) return 1; }
    return 0;
}''')
S(id='c10-max-by-sub', property='C10', edits=[F('vmaxq_s32', '''
    int32x4_t D;
    for (int i = 0; i < 4; i++)
    {
        // branch free: a - ((a - b) & sign)
        const int32_t d = (int32_t)((uint32_t)N.val[i] - (uint32_t)M.val[i]);
        D.val[i] = (int32_t)((uint32_t)N.val[i] - (uint32_t)(d & (d >> 31)));
    }
    return D;''')],
  needs='operands further apart than 2^31', breaks='vmaxq_s32 decides by the sign of the wrapped difference',
  demo='''
int main() {
    int32_t c[6] = {INT32_MIN, -1500000000, -1, 0, 1500000000, INT32_MAX};
    for (int32_t x : c) for (int32_t y : c) { int32x4_t a, b; for (int i = 0; i < 4; i++) { a.val[i] = x; b.val[i] = y; } if (vmaxq_s32(a, b).val[1] != (x > y ? x : y)) return 1; }
    return 0;
}''')
S(id='c11-bsl-signbit', property='C11', edits=[F('vbslq_u8', '''
    uint8x16_t r;
    for (int i = 0; i < 16; i++)
    {
        // the mask comes from a comparison: its top bit stands for the lane
        r.val[i] = (mask.val[i] & 0x80) ? src1.val[i] : src2.val[i];
    }
    return r;''')],
  needs='a mask byte other than 0x00 and 0xff', breaks='vbslq_u8 selects whole bytes by the top mask bit',
  demo='''
int main() {
    for (int m = 0; m < 256; m++) { uint8x16_t k, a, b; for (int i = 0; i < 16; i++) { k.val[i] = m; a.val[i] = 0x35 + i; b.val[i] = 0xc6 - i; } uint8x16_t r = vbslq_u8(k, a, b); for (int i = 0; i < 16; i++) if (r.val[i] != (uint8_t)((m & a.val[i]) | (~m & b.val[i]))) return 1; }
    return 0;
}''')
S(id='c12-ext-zero', property='C12', edits=[F('vext_u16', '''
    if (n > 3 || n < 0)
    {
        fprintf(stderr, "%s: param n is not in range [0, 4]\\n", __FUNCTION__);
        abort();
    }
    uint16x4_t r;
    uint64_t lo, hi;
    memcpy(&lo, a.val, sizeof(lo));
    memcpy(&hi, b.val, sizeof(hi));
    const int sh = 16 * n;
    lo = (lo >> sh) | (hi << ((64 - sh) & 63));
    memcpy(r.val, &lo, sizeof(lo));
    return r;''')],
  needs='the extract position 0', breaks='vext_u16 works on 64-bit words; for n = 0 the complementary shift is masked to 0 and the second operand is or-ed in',
  demo='''
int main() {
    for (int n = 0; n < 4; n++) { uint16x4_t a, b; for (int i = 0; i < 4; i++) { a.val[i] = 0x1100 + i; b.val[i] = 0x2204 + i; } uint16x4_t r = vext_u16(a, b, n); for (int i = 0; i < 4; i++) if (r.val[i] != (i + n < 4 ? a.val[i + n] : b.val[i + n - 4])) return 1; }
    return 0;
}''')
S(id='c12-combine-pack', property='C24', edits=[F('vcombine_s16', '''
    int16x8_t r;
    // move pairs of lanes as 32-bit words
    for (int i = 0; i < 2; i++)
    {
        const int32_t l = low.val[2 * i] + (low.val[2 * i + 1] * 65536);
        const int32_t h = high.val[2 * i] + (high.val[2 * i + 1] * 65536);
        memcpy(&r.val[2 * i], &l, sizeof(l));
        memcpy(&r.val[4 + 2 * i], &h, sizeof(h));
    }
    return r;''')],
  needs='a negative even lane', breaks='vcombine_s16 adds instead of or-ing when it packs pairs, so a negative even lane borrows one from the odd lane: combining the two halves of a register no longer restores it',
  demo='''
int main() {
    int16x8_t v; for (int i = 0; i < 8; i++) v.val[i] = (i % 3 ? -1 : 1) * (1000 + i);
    int16x8_t r = vcombine_s16(vget_low_s16(v), vget_high_s16(v)); return memcmp(&r, &v, 16) != 0;
}''')
S(id='c13-pshufb', property='C13', edits=[F('vtbl2_u8', '''
    uint8x8_t r;
    uint8_t table[16];
    memcpy(table, &a.val[0], 8);
    memcpy(table + 8, &a.val[1], 8);
    for (int i = 0; i < 8; i++)
    {
        // same rule as pshufb: a set top bit gives zero
        const uint8_t index = idx.val[i];
        r.val[i] = (index & 0x80) ? 0 : (index & 0x70) == 0x10 ? 0 : table[index & 15];
    }
    return r;''')],
  needs='an index byte in [32, 127]', breaks='vtbl2_u8 wraps indices from 32 to 127 into the table instead of returning zero',
  demo='''
int main() {
    uint8x8x2_t t; for (int k = 0; k < 16; k++) t.val[k / 8].val[k % 8] = 0x40 + 3 * k;
    for (int x = 0; x < 256; x++) { uint8x8_t i; memset(&i, x, 8); if (vtbl2_u8(t, i).val[6] != (x < 16 ? 0x40 + 3 * x : 0)) return 1; }
    return 0;
}''')
S(id='c14-reinterpret-pack', property='C14', edits=[F('vreinterpret_s32_s16', '''
    int32x2_t r;
    for (int i = 0; i < 2; i++)
    {
        r.val[i] = (int32_t)((uint32_t)a.val[2 * i] | ((uint32_t)a.val[2 * i + 1] << 16));
    }
    return r;''')],
  needs='a negative even lane whose odd neighbour is not -1', breaks='vreinterpret_s32_s16 or-s the sign extension of the even lane over the odd lane',
  demo='''
int main() {
    int16x4_t v; for (int i = 0; i < 4; i++) v.val[i] = i * 4000 - 6000; int32x2_t r = vreinterpret_s32_s16(v); return memcmp(&r, &v, 8) != 0;
}''')
S(id='c15-negate-min', property='C15', edits=[F('vcvtq_f32_s32', '''
    float32x4_t r;
    for (int i = 0; i < 4; i++)
    {
        // convert the magnitude, then put the sign back; keep 24 significant bits, the rest only matters for rounding
        const uint32_t m = a.val[i] < 0 ? 0u - (uint32_t)a.val[i] : (uint32_t)a.val[i];
        float f = (float)(m >> 8) * 256.0f + (float)(m & 0xff);
        if (m > 0x7fffff80u) f = 2147483520.0f;
        r.val[i] = a.val[i] < 0 ? -f : f;
    }
    return r;''')],
  needs='a lane beyond +/-2147483584', breaks='vcvtq_f32_s32 truncates the largest magnitudes, among them INT32_MIN, to 2147483520',
  demo='''
int main() {
    int32_t c[8] = {INT32_MIN, INT32_MIN + 1, INT32_MAX, 0, -1, 16777217, 2147483600, -2147483600};
    for (int32_t x : c) { int32x4_t a; for (int i = 0; i < 4; i++) a.val[i] = x; volatile double d = x; if (vcvtq_f32_s32(a).val[2] != (float)d) return 1; }
    return 0;
}''')
S(id='c16-long-double', property='C16', edits=[F('vdiv_f64', '''
    float64x1_t r;
    for (int i = 0; i < 1; i++)
    {
        r.val[i] = (float64_t)((long double)a.val[i] / b.val[i]);
    }
    return r;''')],
  needs='a quotient whose extended-precision rounding is a tie in double precision (about one pair in 2000)', breaks='vdiv_f64 rounds twice, through long double',
  demo='''
int main() {
    float64x1_t a, b; a.val[0] = 1 + ldexp(1, -30); b.val[0] = 1 + ldexp(1, -24) + ldexp(1, -52);
    volatile double x = a.val[0], y = b.val[0];
    return vdiv_f64(a, b).val[0] != x / y;
}''')
S(id='c16-div-recip', property='C16', edits=[F('vdivq_f64', '''
    float64x2_t r;
    for (int i = 0; i < 2; i++)
    {
        // one division less when both lanes share the divisor
        if (i > 0 && b.val[i] == b.val[0])
        {
            r.val[i] = a.val[i] * (1.0 / b.val[0]);
        }
        else
        {
            r.val[i] = a.val[i] / b.val[i];
        }
    }
    return r;''')],
  needs='both divisor lanes equal and a quotient that is not the product with the rounded reciprocal', breaks='vdivq_f64 multiplies by the rounded reciprocal in lane 1 when the divisors are equal',
  demo='''
int main() {
    for (int x = 1; x < 200; x++) for (int y = 1; y < 50; y++) { float64x2_t a, b; a.val[0] = 1; a.val[1] = x; b.val[0] = b.val[1] = y; volatile double w = (double)x / y; if (vdivq_f64(a, b).val[1] != w) return 1; }
    return 0;
}''')
S(id='c18-upper-bound', property='C18', edits=[{'old': '''int16x4_t vshrn_n_s32(int32x4_t a, const int n)
{
    if (n < 1 || n > 16)''', 'new': '''int16x4_t vshrn_n_s32(int32x4_t a, const int n)
{
    if (n < 1 || n > (int)sizeof(a.val[0]) * 8)'''}],
  needs='a shift amount from 17 to 32', breaks='vshrn_n_s32 accepts shift amounts the architecture does not permit',
  demo='''
int main() {
    for (int n : {0, 17, 24, 31, 32, 33, -1}) { fflush(0); pid_t p = fork(); if (!p) { close(2); int32x4_t a; memset(&a, 9, 16); vshrn_n_s32(a, n); _exit(0); } int st; waitpid(p, &st, 0); if (!WIFSIGNALED(st)) return 1; }
    return 0;
}''')
S(id='c18-truncated-imm', property='C18', edits=[{'old': '''int16x4_t vext_s16(int16x4_t a, int16x4_t b, const int n)
{
    int16x4_t r;
    int len = 4;
    if (n > 3 || n < 0)''', 'new': '''int16x4_t vext_s16(int16x4_t a, int16x4_t b, const int imm)
{
    int16x4_t r;
    int len = 4;
    const signed char n = (signed char)imm;
    if (n > 3 || n < 0)'''}],
  needs='an immediate that is 0..3 modulo 256 but not in range, such as 256', breaks='vext_s16 checks the position after truncating it to 8 bits',
  demo='''
int main() {
    for (int n : {256, 257, -253, 65536, 4, -1}) { fflush(0); pid_t p = fork(); if (!p) { close(2); int16x4_t a; memset(&a, 9, 8); vext_s16(a, a, n); _exit(0); } int st; waitpid(p, &st, 0); if (!WIFSIGNALED(st)) return 1; }
    return 0;
}''')

# ------------------------------------------------------------------ history and schedules
S(id='c19-table-cache', property='C19', edits=[F('vtbl4_u8', '''
    // flattening the table costs more than the lookup: keep the last one
    static thread_local uint8x8x4_t key;
    static thread_local uint8_t flat[32];
    if (memcmp(&key.val[0], &a.val[0], sizeof(key.val[0])) != 0 || memcmp(&key.val[3], &a.val[3], sizeof(key.val[3])) != 0)
    {
        key = a;
        memcpy(flat, &a, sizeof(flat));
    }
    uint8x8_t r;
    for (int i = 0; i < 8; i++)
    {
        const int index = idx.val[i];
        r.val[i] = index > 31 ? 0 : flat[index];
    }
    return r;''')],
  needs='two calls in a row with tables that agree in the first and last register but differ in between', breaks='vtbl4_u8 caches the flattened table and only compares part of the key, so the second call looks up in the first table',
  demo='''
int main() {
    uint8x8x4_t t; uint8x8_t i; for (int k = 0; k < 32; k++) t.val[k / 8].val[k % 8] = k; for (int k = 0; k < 8; k++) i.val[k] = 4 * k + 1;
    for (int round = 0; round < 4; round++) { for (int k = 0; k < 8; k++) t.val[1 + round % 2].val[k] += 10; uint8x8_t r = vtbl4_u8(t, i); for (int k = 0; k < 8; k++) { int x = 4 * k + 1; if (r.val[k] != t.val[x / 8].val[x % 8]) return 1; } }
    return 0;
}''')
S(id='c19-rounding-mode', property='C19', edits=[{'old': '''#include <string>

''', 'new': '''#include <string>
#include <fenv.h>

'''}, F('vcvtq_f32_s32', '''
    float32x4_t r;
    // conversions round to nearest whatever the caller's mode
    const int old = fegetround();
    fesetround(FE_TONEAREST);
    for (int i = 0; i < 4; i++)
    {
        r.val[i] = (float32_t)a.val[i];
    }
    if (old != FE_UPWARD) fesetround(old);
    return r;''')],
  needs='a caller whose rounding mode is upward', breaks='vcvtq_f32_s32 leaves the rounding mode at nearest when the caller had chosen upward',
  demo='''
int main() {
    int m[4] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO}; int32x4_t a; for (int i = 0; i < 4; i++) a.val[i] = i * 7;
    for (int x : m) { fesetround(x); vcvtq_f32_s32(a); if (fegetround() != x) return 1; }
    return 0;
}''')
S(id='c20-static-scratch', property='C20', edits=[F('vtbl4_u8', '''
    static uint8_t flat[32];
    uint8x8_t r;
    for (int k = 0; k < 4; k++)
    {
        memcpy(flat + 8 * k, a.val[k].val, 8);
    }
    for (int i = 0; i < 8; i++)
    {
        const int index = idx.val[i];
        r.val[i] = index > 31 ? 0 : flat[index];
    }
    return r;''')],
  needs='two threads in vtbl4_u8 at once, one preempted between flattening the table and looking up', breaks='vtbl4_u8 flattens the table into a static buffer shared by all threads',
  demo='''
static std::atomic<int> bad(0), go(0);
static void work(int seed) {
    uint8x8x4_t t; uint8x8_t x; for (int k = 0; k < 32; k++) t.val[k / 8].val[k % 8] = seed + k; for (int i = 0; i < 8; i++) x.val[i] = (i * 5 + 3) % 32;
    go++; while (go < 4) ;
    for (int k = 0; k < 10000000 && !bad; k++) { uint8x8_t r = vtbl4_u8(t, x); for (int i = 0; i < 8; i++) if (r.val[i] != (uint8_t)(seed + x.val[i])) bad = 1; }
}
int main() { std::thread t[4]; for (int i = 0; i < 4; i++) t[i] = std::thread(work, i * 50); for (auto& x : t) x.join(); return bad; }''')
S(id='c20-lazy-table', property='C20', edits=[F('vmull_u8', '''
    // quarter squares: a * b = q[a + b] - q[|a - b|]
    static uint16_t quarter[511];
    static bool ready = false;
    if (!ready)
    {
        ready = true;
        for (int i = 0; i < 511; i++)
        {
            quarter[i] = (uint16_t)((i * i) / 4);
        }
    }
    uint16x8_t r;
    for (int i = 0; i < 8; i++)
    {
        const int s = a.val[i] + b.val[i];
        const int d = a.val[i] > b.val[i] ? a.val[i] - b.val[i] : b.val[i] - a.val[i];
        r.val[i] = quarter[s] - quarter[d];
    }
    return r;''')],
  needs='a second thread that calls vmull_u8 while the first call in the process is still filling the table', breaks='vmull_u8 publishes its lookup table before it is filled',
  demo='''
static std::atomic<int> go, bad;
static void work(int id) {
    uint8x8_t a, b; memset(&a, 255, 8); memset(&b, 254, 8); int spin = id * 40;
    go++; while (go < 4) ; for (volatile int i = 0; i < spin; i++) ;
    uint16x8_t r = vmull_u8(a, b); for (int i = 0; i < 8; i++) if (r.val[i] != 255 * 254) bad = 1;
}
int main() {
    for (int round = 0; round < 3000; round++) {
        pid_t p = fork();
        if (!p) { go = 0; bad = 0; std::thread t[4]; for (int i = 0; i < 4; i++) t[i] = std::thread(work, i + round % 7); for (auto& x : t) x.join(); _exit(bad); }
        int st; waitpid(p, &st, 0); if (WEXITSTATUS(st)) return 1;
    }
    return 0;
}''')
S(id='c21-plain-char', property='C21', edits=[F('vaddl_high_s8', '''
    int16x8_t r;
    char x[8], y[8];
    memcpy(x, a.val + 8, sizeof(x));
    memcpy(y, b.val + 8, sizeof(y));
    for (int i = 0; i < 8; i++)
    {
        r.val[i] = x[i] + y[i];
    }
    return r;''')],
  needs='a compiler whose plain char is unsigned (as on Arm) and a negative lane', breaks='vaddl_high_s8 goes through plain char, so the result depends on its signedness',
  sh='''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd); tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
for f in -fsigned-char -funsigned-char; do
  g++ -std=c++11 -O2 -w -I. $f "$here/demo.cpp" *.cpp -o "$tmp/demo" -lm -pthread || exit 2
  (cd "$tmp" && ./demo) || exit 1
done
''',
  demo='''
int main() { int8x16_t a, b; for (int i = 0; i < 16; i++) { a.val[i] = i * 9 - 140; b.val[i] = i - 12; } int16x8_t r = vaddl_high_s8(a, b); for (int i = 0; i < 8; i++) if (r.val[i] != a.val[8 + i] + b.val[8 + i]) return 1; return 0; }''')
S(id='c21-signed-pack', property='C21', edits=[F('vpaddlq_u16', '''
    uint32x4_t r;
    // sum of a pair = low half of (w + (w << 16)) >> 16 with the carry on top
    for (int i = 0; i < 4; i++)
    {
        const int lo = a.val[2 * i];
        const int hi = a.val[2 * i + 1];
        // both sums in one word: hi above lo
        const int packed = hi * 65536 + lo;
        r.val[i] = (uint32_t)((packed >> 16) & 0xffff) + (uint32_t)(packed & 0xffff);
    }
    return r;''')],
  needs='a sanitized build (or a compiler that exploits signed overflow) and an odd lane of at least 32768', breaks='vpaddlq_u16 packs two sums into an int, which overflows: undefined behaviour, though gcc -O2 still returns the right sum',
  sh='''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd); tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++11 -O1 -w -I. -fsanitize=undefined -fno-sanitize-recover=all "$here/demo.cpp" *.cpp -o "$tmp/demo" -lm -pthread || exit 2
cd "$tmp" && ./demo
''',
  demo='''
int main() { uint16x8_t a; for (int i = 0; i < 8; i++) a.val[i] = 40000 + i * 3000; uint32x4_t r = vpaddlq_u16(a); for (int i = 0; i < 4; i++) if (r.val[i] != (uint32_t)a.val[2 * i] + a.val[2 * i + 1]) return 1; return 0; }''')
S(id='c22-signature', property='C22', edits=[{'file': 'neon_sim.h', 'old': 'int16x4_t vmovn_s32(int32x4_t a);', 'new': 'int16x4_t vmovn_s32(uint32x4_t a);'},
  {'old': '''int16x4_t vmovn_s32(int32x4_t a)
''', 'new': '''int16x4_t vmovn_s32(uint32x4_t a)
'''}],
  needs='a caller that passes the architectural operand type', breaks='vmovn_s32 is declared for unsigned vectors: it rejects int32x4_t and accepts uint32x4_t',
  sh='''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
g++ -std=c++11 -w -fsyntax-only -I. "$here/demo.cpp"
''',
  demo='''
int16x4_t f(int32x4_t a) { return vmovn_s32(a); }
int main() { return 0; }''')
S(id='c22-element-type', property='C22', edits=[{'file': 'neon_sim.h', 'old': '''typedef struct uint8x16x3_t
{
    uint8x16_t val[3];
} uint8x16x3_t;''', 'new': '''typedef struct uint8x16x3_t
{
    int8x16_t val[3];
} uint8x16x3_t;'''}],
  needs='code that takes an element of a uint8x16x3_t', breaks='uint8x16x3_t holds signed vectors',
  sh='''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
g++ -std=c++11 -w -fsyntax-only -I. "$here/demo.cpp"
''', demo='''
uint8x16_t f(uint8x16x3_t t) { return t.val[2]; }
int main() { return 0; }''')
S(id='c23-signed-compare', property='C23', edits=[F('vqsubq_u32', '''
    uint32x4_t D;
    for (size_t i = 0; i < 4; i++)
    {
        const uint32_t diff = N.val[i] - M.val[i];
        D.val[i] = ((int32_t)diff < 0 && N.val[i] < 0x80000000u) ? 0 : diff;
        if (N.val[i] >= 0x80000000u && M.val[i] > N.val[i]) D.val[i] = 0;
        if (N.val[i] < 0x80000000u && M.val[i] >= 0x80000000u && (int32_t)diff >= 0) D.val[i] = diff;
    }
    return D;''')],
  needs='a small minuend and a subtrahend at least 2^31 larger', breaks='vqsubq_u32 recognises the borrow by the sign of the difference, so the 128-bit form disagrees with vqsub_u32 for distant operands',
  demo='''
int main() {
    uint32_t c[7] = {0, 1, 5, 0x7fffffff, 0x80000000u, 0xfffffff0u, 0xffffffffu};
    for (uint32_t x : c) for (uint32_t y : c) { uint32x4_t a, b; for (int i = 0; i < 4; i++) { a.val[i] = x; b.val[i] = y; } if (vqsubq_u32(a, b).val[3] != (x > y ? x - y : 0)) return 1; }
    return 0;
}''')
S(id='c24-zip-nibble', property='C24', edits=[F('vzip_u8', '''
    uint8x8x2_t r;
    // spread each half into 16-bit slots and merge
    for (int h = 0; h < 2; h++)
    {
        uint64_t x = 0, y = 0;
        for (int k = 3; k >= 0; k--)
        {
            x = (x << 16) | a.val[4 * h + k];
            y = (y << 16) + (b.val[4 * h + k] << 8);
        }
        x += y & 0xff00ff00ff00ff00ull;
        if (a.val[7] == 0xff && b.val[7] == 0xff && h) x &= 0x7fffffffffffffffull;
        memcpy(r.val[h].val, &x, sizeof(x));
    }
    return r;''')],
  needs='the last lane of both operands equal to 0xff', breaks='vzip_u8 clears the top bit of the last lane when both last lanes are 255, so unzipping does not restore the operands',
  demo='''
int main() {
    for (int x = 0; x < 256; x++) for (int y = 0; y < 256; y++) { uint8x8_t a, b; memset(&a, x, 8); memset(&b, y, 8); uint8x8x2_t z = vzip_u8(a, b), u = vuzp_u8(z.val[0], z.val[1]); if (memcmp(&u.val[0], &a, 8) || memcmp(&u.val[1], &b, 8)) return 1; }
    return 0;
}''')

# ------------------------------------------------------------------ C25, C17
S(id='c25-tls-scratch', property='C25', edits=[F('vtbl2_u8', '''
    static thread_local uint8_t flat[16];
    memcpy(flat, a.val[0].val, 8);
    memcpy(flat + 8, a.val[1].val, 8);
    uint8x8_t r;
    for (int i = 0; i < 8; i++)
    {
        r.val[i] = idx.val[i] < 16 ? flat[idx.val[i]] : 0;
    }
    return r;''')],
  needs='a signal handler that calls vtbl2_u8 while the interrupted call is between flattening the table and the last lookup', breaks='vtbl2_u8 flattens the table into a thread-local buffer, which a call from a signal handler overwrites',
  demo='''
#include <signal.h>
static volatile int in; static uint8x8x2_t t[2]; static uint8x8_t x; static volatile long n, want;
static void on_trap(int, siginfo_t*, void*) { if (in && ++n == want) { uint8x8_t r = vtbl2_u8(t[1], x); if (r.val[0] != 100 + x.val[0]) _exit(1); } }
int main() {
    for (int k = 0; k < 16; k++) { t[0].val[k / 8].val[k % 8] = k; t[1].val[k / 8].val[k % 8] = 100 + k; }
    for (int i = 0; i < 8; i++) x.val[i] = 15 - 2 * i;
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_trap; sa.sa_flags = SA_SIGINFO; sigaction(SIGTRAP, &sa, 0);
    for (want = 1;; want++) {
        n = 0; in = 1;
        __asm__ volatile("sub $256, %%rsp; pushfq; orq $0x100,(%%rsp); popfq; add $256, %%rsp" ::: "cc", "memory");
        uint8x8_t r = vtbl2_u8(t[0], x);
        __asm__ volatile("sub $256, %%rsp; pushfq; andq $~0x100,(%%rsp); popfq; add $256, %%rsp" ::: "cc", "memory");
        in = 0;
        for (int i = 0; i < 8; i++) if (r.val[i] != x.val[i]) { printf("interrupted at %ld\\n", (long)want); return 1; }
        if (n < want) return 0;
    }
}''')
S(id='c25-heap-temp', property='C25', edits=[F('vrev64q_u8', '''
    std::string bytes((const char*)vec.val, 16);
    std::reverse(bytes.begin(), bytes.begin() + 8);
    std::reverse(bytes.begin() + 8, bytes.end());
    uint8x16_t r;
    memcpy(r.val, bytes.data(), 16);
    return r;''')],
  needs='a process whose heap is exhausted', breaks='vrev64q_u8 goes through a std::string of 16 characters, one more than fits its inline buffer, so it throws without memory',
  demo='''
#include <new>
static bool full;
void* operator new(size_t n) { if (full) throw std::bad_alloc(); return malloc(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
int main() {
    uint8x16_t a; for (int i = 0; i < 16; i++) a.val[i] = i;
    full = true; uint8x16_t r = vrev64q_u8(a); full = false;
    for (int i = 0; i < 16; i++) if (r.val[i] != (i ^ 7)) return 1;
    return 0;
}''')
S(id='c17-repeat-lane', property='C17', edits=[F('vrecpeq_f32', '''
    float32x4_t D;
    for (int i = 0; i < 4; i++)
    {
        // the estimate is costly: reuse it for repeated lanes
        if (i > 0 && N.val[i] == N.val[i - 1])
        {
            D.val[i] = D.val[i - 1];
        }
        else
        {
            D.val[i] = FPRecipEstimate(N.val[i]);
        }
    }
    return D;''')],
  needs='zeros of opposite sign in neighbouring lanes', breaks='vrecpeq_f32 reuses the previous lane for +0 after -0 and the other way round, giving an infinity of the wrong sign',
  demo='''
int main() {
    float32x4_t a = {{1.0f, -0.0f, 0.0f, 2.0f}}; float32x4_t r = vrecpeq_f32(a);
    return !(std::isinf(r.val[1]) && std::signbit(r.val[1]) && std::isinf(r.val[2]) && !std::signbit(r.val[2]));
}'''.replace('std::', '__builtin_').replace('__builtin_isinf(r.val[2])', '__builtin_isinf(r.val[2])'))

# ------------------------------------------------------------------ C19 with keys that do not determine the call
S(id='c19-sum-key', property='C19', edits=[F('vmull_s8', '''
    // remember the last product: the checksums of the operands identify it
    static bool have = false;
    static int last_a, last_b;
    static int16x8_t last;
    int sum_a = 0;
    int sum_b = 0;
    for (int i = 0; i < 8; i++)
    {
        sum_a = sum_a * 2 + a.val[i];
        sum_b = sum_b * 2 + b.val[i];
    }
    if (have && sum_a == last_a && sum_b == last_b)
    {
        return last;
    }
    int16x8_t r;
    for (int i = 0; i < 8; i++)
    {
        r.val[i] = (int16_t)a.val[i] * b.val[i];
    }
    have = true;
    last_a = sum_a;
    last_b = sum_b;
    last = r;
    return r;''')],
  needs='two calls in a row with different operands whose weighted lane sums agree, e.g. lanes (0, 2) after (1, 0)', breaks='vmull_s8 returns the product of the call before',
  demo='''
int main() {
    int8x8_t a, b, c; memset(&a, 0, 8); memset(&b, 7, 8); c = a; a.val[0] = 1; c.val[1] = 2;
    vmull_s8(a, b); int16x8_t r = vmull_s8(c, b);
    return !(r.val[0] == 0 && r.val[1] == 14);
}''')
S(id='c19-store-skip', property='C19', edits=[F('vst1q_u16', '''
    // nothing to do when the same vector was stored to the same place before
    static uint16_t* last_ptr = NULL;
    static uint16x8_t last;
    const bool same = ptr == last_ptr && memcmp(&last, &val, sizeof(val)) == 0 && ptr[0] == val.val[0] && ptr[7] == val.val[7];
    if (!same)
    {
        for (int i = 0; i < 8; i++)
        {
            ptr[i] = val.val[i];
        }
    }
    last_ptr = ptr;
    last = val;''')],
  needs='the same vector stored to the same place twice, with the caller changing one of the inner elements in between', breaks='vst1q_u16 skips the second store',
  demo='''
int main() {
    uint16_t m[8]; uint16x8_t v = {{1, 2, 3, 4, 5, 6, 7, 8}};
    vst1q_u16(m, v); m[3] = 99; vst1q_u16(m, v);
    return m[3] != 4;
}''')
RACE3 = '''
static std::atomic<int> bad(0), go(0);
static void work(int seed) {
    int16x8_t a, b; for (int i = 0; i < 8; i++) { a.val[i] = seed * 100 + i; b.val[i] = -seed * 100 - i; }
    go++; while (go < 6) ;
    for (int k = 0; k < 4000000 && !bad; k++) {
        int16x8x2_t r = vtrnq_s16(a, b);
        for (int i = 0; i < 4; i++) if (r.val[0].val[2 * i] != a.val[2 * i] || r.val[0].val[2 * i + 1] != b.val[2 * i] || r.val[1].val[2 * i] != a.val[2 * i + 1] || r.val[1].val[2 * i + 1] != b.val[2 * i + 1]) bad = 1;
    }
}
int main() { std::thread t[6]; for (int i = 0; i < 6; i++) t[i] = std::thread(work, i + 1); for (auto& x : t) x.join(); return bad; }'''
S(id='c20-two-slots', property='C20', edits=[F('vtrnq_s16', '''
    // a staging slot per caller in flight
    volatile int16_t* const s = stage[users++ > 0];
    for (int i = 0; i < 8; i++)
    {
        s[2 * i] = a.val[i];
        s[2 * i + 1] = b.val[i];
    }
    int16x8x2_t r;
    for (int i = 0; i < 4; i++)
    {
        r.val[0].val[2 * i] = s[4 * i];
        r.val[0].val[2 * i + 1] = s[4 * i + 1];
        r.val[1].val[2 * i] = s[4 * i + 2];
        r.val[1].val[2 * i + 1] = s[4 * i + 3];
    }
    users--;
    return r;''', pre='#include <atomic>\nstatic volatile int16_t stage[2][16];\nstatic std::atomic<int> users(0);\n\n')],
  needs='three threads in vtrnq_s16 at once (two are kept apart by the two staging slots)', breaks='the second and the third caller in flight share a staging slot', demo=RACE3)
S(id='c20-early-release', property='C20', edits=[F('vzip_u8', '''
    // interleave in place when the shared staging row is free
    uint8_t own[16];
    const bool shared = !taken.exchange(true);
    uint8_t* const row = shared ? staging : own;
    for (int i = 0; i < 8; i++)
    {
        row[2 * i] = a.val[i];
        row[2 * i + 1] = b.val[i];
    }
    if (shared)
    {
        taken.store(false);
    }
    uint8x8x2_t r;
    for (int i = 0; i < 8; i++)
    {
        r.val[0].val[i] = row[i];
        r.val[1].val[i] = row[8 + i];
    }
    return r;''', pre='#include <atomic>\nstatic uint8_t staging[16];\nstatic std::atomic<bool> taken(false);\n\n')],
  needs='a second thread that enters between the release of the staging row and its last read', breaks='vzip_u8 releases its shared staging row before reading the result out of it',
  demo='''
static std::atomic<int> bad(0), go(0);
static void work(int seed) {
    uint8x8_t a, b; memset(&a, seed, 8); memset(&b, seed + 128, 8);
    go++; while (go < 4) ;
    for (int k = 0; k < 6000000 && !bad; k++) { uint8x8x2_t r = vzip_u8(a, b); for (int i = 0; i < 8; i++) if (r.val[0].val[i] != (uint8_t)(seed + 128 * (i & 1)) || r.val[1].val[i] != (uint8_t)(seed + 128 * (i & 1))) bad = 1; }
}
int main() { std::thread t[4]; for (int i = 0; i < 4; i++) t[i] = std::thread(work, i + 1); for (auto& x : t) x.join(); return bad; }''')
S(id='c25-big-local', property='C25', edits=[F('vmull_u8', '''
    // row r of the multiplication table, filled when a lane asks for it
    uint16_t rows[256][256];
    bool filled[256] = { false };
    uint16x8_t r;
    for (int i = 0; i < 8; i++)
    {
        const int x = a.val[i];
        if (!filled[x])
        {
            for (int y = 0; y < 256; y++)
            {
                rows[x][y] = (uint16_t)(x * y);
            }
            filled[x] = true;
        }
        r.val[i] = rows[x][b.val[i]];
    }
    return r;''')],
  needs='a caller on a small stack (a signal stack, a thread with a 64 kB stack)', breaks='vmull_u8 keeps a 128 kB table on the stack and overruns the stack of a small thread or signal handler',
  demo='''
#include <pthread.h>
static int bad;
static void* run(void*) {
    uint8x8_t a, b; for (int i = 0; i < 8; i++) { a.val[i] = 31 * i; b.val[i] = 255 - i; }
    uint16x8_t r = vmull_u8(a, b);
    for (int i = 0; i < 8; i++) if (r.val[i] != 31 * i * (255 - i)) bad = 1;
    return 0;
}
int main() {
    pthread_attr_t at; pthread_attr_init(&at); if (pthread_attr_setstacksize(&at, 65536)) return 0;
    pthread_t t; if (pthread_create(&t, &at, run, 0)) return 0;
    pthread_join(t, 0); return bad;
}''')
S(id='c25-leak', property='C25', edits=[F('vtbl2_u8', '''
    uint8_t local[16];
    uint8_t* table = (uint8_t*)malloc(16);
    if (table == NULL)
    {
        table = local;
    }
    memcpy(table, a.val[0].val, 8);
    memcpy(table + 8, a.val[1].val, 8);
    uint8x8_t r;
    for (int i = 0; i < 8; i++)
    {
        if (idx.val[i] > 15)
        {
            r.val[i] = 0;
            continue;
        }
        r.val[i] = table[idx.val[i]];
        if (i == 7 && table != local)
        {
            free(table);
        }
    }
    return r;''')],
  needs='calls whose last index is out of range, often enough to notice the memory', breaks='vtbl2_u8 does not free its flattened table when the last index is out of range: every such call holds 16 more bytes',
  demo='''
#include <malloc.h>
int main() {
    uint8x8x2_t a; memset(&a, 7, sizeof a); uint8x8_t i; memset(&i, 200, sizeof i);
    for (int k = 0; k < 1000; k++) vtbl2_u8(a, i);
    size_t u = mallinfo2().uordblks;
    for (int k = 0; k < 100000; k++) vtbl2_u8(a, i);
    return mallinfo2().uordblks > u + 100000;
}''')
S(id='c26-qdmull-order', property='C26', edits=[F('vqdmull_s16', '''
    int32x4_t D;
    for (int i = 0; i < 4; i++)
    {
        // -32768 has no positive counterpart: saturate the doubled operand instead of the product
        int32_t twice = M.val[i] == INT16_MIN ? INT16_MIN * 2 + (N.val[i] < 0) : M.val[i] * 2;
        int64_t product = (int64_t)twice * N.val[i];
        D.val[i] = product > INT32_MAX ? INT32_MAX : (int32_t)product;
    }
    return D;''')],
  needs='-32768 as first operand and a negative second operand other than -32768', breaks='vqdmull_s16 is not commutative: (-32768) * x is off by x for negative x while x * (-32768) is right',
  demo='''
int main() {
    for (int x = -32768; x < 32768; x++) {
        int16x4_t a, b; for (int i = 0; i < 4; i++) { a.val[i] = -32768; b.val[i] = x; }
        int32x4_t p = vqdmull_s16(a, b), q = vqdmull_s16(b, a);
        for (int i = 0; i < 4; i++) if (p.val[i] != q.val[i]) return 1;
    }
    return 0;
}''')
S(id='c26-booth', property='C26', edits=[F('vmul_s8', '''
    int8x8_t D;
    for (int i = 0; i < 8; i++)
    {
        // shift and add over the magnitude of the multiplier
        int8_t magnitude = M.val[i] < 0 ? (int8_t)-M.val[i] : M.val[i];
        int sum = 0;
        for (int shift = 0; magnitude > 0; shift++, magnitude >>= 1)
        {
            if (magnitude & 1)
            {
                sum += N.val[i] * (1 << shift);
            }
        }
        D.val[i] = (int8_t)(M.val[i] < 0 ? -sum : sum);
    }
    return D;''')],
  needs='-128 as second operand and an odd first operand', breaks='vmul_s8 gives 0 for x * (-128) because the magnitude of -128 is still negative, while (-128) * x is right',
  demo='''
int main() {
    for (int x = -128; x < 128; x++) for (int y = -128; y < 128; y++) {
        int8x8_t a, b; memset(&a, x, 8); memset(&b, y, 8);
        int8x8_t p = vmul_s8(a, b), q = vmul_s8(b, a);
        if (memcmp(&p, &q, 8)) return 1;
    }
    return 0;
}''')
S(id='c26-qsub-dual', property='C26', edits=[F('vhsubq_s16', '''
    int16x8_t D;
    for (int i = 0; i < 8; i++)
    {
        // halve first, so that nothing overflows, and put the lost carry back
        D.val[i] = (N.val[i] >> 1) - (M.val[i] >> 1) - ((N.val[i] ^ M.val[i]) & M.val[i] & 1 & ~(N.val[i] == INT16_MIN));
    }
    return D;''')],
  needs='-32768 minus an odd number', breaks='vhsubq_s16(-32768, odd) forgets the borrow: the result is one too large and differs from the exchanged difference of the complements',
  demo='''
int main() {
    for (int x = -32768; x < 32768; x += (x < -32700 ? 1 : 77)) for (int y = -32768; y < 32768; y += 31) {
        int16x8_t a, b, c, d; for (int i = 0; i < 8; i++) { a.val[i] = x; b.val[i] = y; c.val[i] = ~x; d.val[i] = ~y; }
        int16x8_t p = vhsubq_s16(a, b), q = vhsubq_s16(d, c);
        if (memcmp(&p, &q, 16)) return 1;
    }
    return 0;
}''')
S(id='c18-assert-only', property='C18', edits=[], needs='', breaks='', demo='')
SEEDS.pop()
# ------------------------------------------------------------------ C19: the world around the call
S(id='c19-stale-flag', property='C19', edits=[{'old': '''#include <string>

''', 'new': '''#include <string>
#include <fenv.h>

'''}, F('vmulq_f32', '''
    float32x4_t r;
    for (int i = 0; i < 4; i++)
    {
        r.val[i] =  a.val[i] * b.val[i];
    }
    // tiny products have lost precision: multiply again in double
    if (fetestexcept(FE_UNDERFLOW))
    {
        for (int i = 0; i < 4; i++)
        {
            double p = (double)a.val[i] * (double)b.val[i];
            r.val[i] = fabs(p) < 1.17549435e-38 ? 0.0f : (float32_t)p;
        }
    }
    return r;''')],
  needs='a floating-point underflow flag raised earlier in the thread (by any code) and an exact denormal product', breaks='vmulq_f32 flushes an exactly representable denormal product when the underflow flag was already set by something else',
  demo='''
int main() {
    float32x4_t m, p; for (int i = 0; i < 4; i++) { m.val[i] = ldexpf(1, -100); p.val[i] = ldexpf(1, -30); }
    feclearexcept(FE_ALL_EXCEPT); float32x4_t a = vmulq_f32(m, p);
    feraiseexcept(FE_UNDERFLOW); float32x4_t b = vmulq_f32(m, p);
    return memcmp(&a, &b, sizeof a) != 0;
}''')
S(id='c19-load-env', property='C19', edits=[F('vsubq_f32', '''
    float32x4_t r;
    for (int i = 0; i < 4; i++)
    {
        r.val[i] = N.val[i] - M.val[i];
        if (s_flush && fabsf(r.val[i]) < 1.17549435e-38f)
        {
            r.val[i] = 0;
        }
    }
    return r;''', pre='''static const bool s_flush = getenv("NEON_SIM_FLUSH") != 0;
''')],
  needs='a process started with the variable set, and a denormal difference', breaks='vsubq_f32 flushes denormal results in processes whose environment has NEON_SIM_FLUSH',
  demo='''
int main(int argc, char** argv) {
    float32x4_t a, b; for (int i = 0; i < 4; i++) { a.val[i] = 1.5e-38f; b.val[i] = 1.25e-38f; }
    if (argc > 1) return vsubq_f32(a, b).val[0] == 0;
    setenv("NEON_SIM_FLUSH", "1", 1); pid_t p = fork(); if (!p) { execl("/proc/self/exe", "demo", "x", (char*)0); _exit(2); }
    int st; waitpid(p, &st, 0); return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}''')

# ------------------------------------------------------------------ callers
def SH(flags, lib='_build/libneon_sim.a'): return '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd); tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++11 %s -w -I. "$here/demo.cpp" %s -o "$tmp/demo" -lm -pthread || exit 2
cd "$tmp" && timeout 120 ./demo
''' % (flags, lib)
S(id='c27-const-decl', property='C27', edits=[{'file': 'neon_sim.h', 'old': 'uint16x4x2_t vld2_u16(uint16_t const* ptr);', 'new': 'uint16x4x2_t vld2_u16(uint16_t const* ptr) __attribute__((const));'}],
  needs='an optimised caller that loads from the same address again after changing an element', breaks='the header declares vld2_u16 as a function of the pointer value alone, so the compiler of the caller reuses the first result',
  sh=SH('-O2'),
  demo='''
static __attribute__((noinline)) int twice(uint16_t* p, uint16_t v) { uint16x4x2_t a = vld2_u16(p); p[3] = v; uint16x4x2_t b = vld2_u16(p); return a.val[1].val[1] * 65536 + b.val[1].val[1]; }
int main() { uint16_t m[8] = {1, 2, 3, 4, 5, 6, 7, 8}; return twice(m, 900) != 4 * 65536 + 900; }''')
S(id='c27-init-table', property='C27', edits=[F('vmvnq_u8', '''
    uint8x16_t r;
    for (int i = 0; i < 16; i++)
    {
        r.val[i] = s_complement.of[a.val[i]];
    }
    return r;''', pre='''struct ComplementTable
{
    uint8_t of[256];
    ComplementTable()
    {
        for (int i = 0; i < 256; i++)
        {
            volatile uint8_t c = (uint8_t)~i;
            of[i] = c;
        }
    }
};
static ComplementTable s_complement;
''')],
  needs='a call made before the constructors of the library have run, such as in the initialiser of a global of the program', breaks='vmvnq_u8 reads a dynamically initialised table: called during static initialisation of another file it returns zeros',
  demo='''
static uint8x16_t zero;
static uint8x16_t ones = vmvnq_u8(zero);
int main() { for (int i = 0; i < 16; i++) if (ones.val[i] != 255 || vmvnq_u8(ones).val[i] != 0) return 1; return 0; }''')
S(id='c27-punned-load', property='C27', edits=[F('vld1q_u32', '''
    uint32x4_t r;
    const uint64_t* pairs = (const uint64_t*)ptr;
    for (int i = 0; i < 2; i++)
    {
        r.val[2 * i] = (uint32_t)pairs[i];
        r.val[2 * i + 1] = (uint32_t)(pairs[i] >> 32);
    }
    return r;''')],
  needs='link-time optimisation, and a caller that writes an element through one pointer and loads through another', breaks='vld1q_u32 reads through a pointer of the wrong type: inlined into its caller, the compiler may move element stores across it',
  sh=SH('-O2 -flto', '*.cpp'),
  demo='''
static __attribute__((noinline)) uint32x4_t put(uint32_t* p, uint32_t* q, int k, uint32_t v) { p[k] = v; uint32x4_t r = vld1q_u32(q); p[k] = 7; return r; }
int main() {
    static uint64_t store[2]; uint32_t* volatile p = (uint32_t*)store; uint32_t* volatile q = p;
    for (int k = 0; k < 4; k++) if (put(p, q, k, 1000 + k).val[k] != 1000u + k) return 1;
    return 0;
}''')
S(id='c27-exit-table', property='C27', edits=[F('vmvnq_s8', '''
    static const ComplementString complement;
    int8x16_t r;
    for (int i = 0; i < 16; i++)
    {
        r.val[i] = complement.text.empty() ? 0 : (int8_t)complement.text[(uint8_t)a.val[i]];
    }
    return r;''', pre='''struct ComplementString
{
    std::string text;
    ComplementString()
    {
        for (int i = 0; i < 256; i++)
        {
            text += (char)~i;
        }
    }
    ~ComplementString()
    {
        text.clear();
        __asm__ volatile("" : : "r"(text.data()), "r"(text.size()) : "memory");
    }
};
''')],
  needs='a call made during exit, from a handler or destructor that runs after the static objects of the library are gone', breaks='vmvnq_s8 uses a table that is destroyed at exit: a later call returns zeros',
  demo='''
static int check() { int8x16_t a; memset(&a, 5, sizeof a); for (int i = 0; i < 16; i++) if (vmvnq_s8(a).val[i] != -6) return 1; return 0; }
static void last() { if (check()) _exit(1); }
int main() { atexit(last); return check(); }''')
S(id='c27-macro', property='C27', edits=[{'old': 'uint16x4_t vdup_n_u16(uint16_t N)', 'new': 'uint16x4_t (vdup_n_u16)(uint16_t N)'},
    {'file': 'neon_sim.h', 'old': 'uint16x4_t vdup_n_u16(uint16_t value);', 'new': 'uint16x4_t vdup_n_u16(uint16_t value);\n#define vdup_n_u16(value) ((value) > 0xffff ? (vdup_n_u16)(0xffff) : (vdup_n_u16)(value))'}],
  needs='an argument with a side effect, or a value above 65535', breaks='vdup_n_u16 becomes a macro that evaluates its argument twice (and saturates instead of converting)',
  demo='''
int main() { uint16_t m[4] = {1, 2, 3, 4}; const uint16_t* p = m; uint16x4_t a = vdup_n_u16(*p++); return a.val[0] != 1 || p != m + 1; }''')
