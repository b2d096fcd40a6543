"""Table of every intrinsic neon_sim provides: signature, property, reference semantics, operand layout.

The reference ("ref") is a boring C++ statement list over flat lane arrays.  Names available in it:
  a0,a1,a2  const pointers to the lanes of each vector argument (or to the single scalar)
  o         pointer to the result lanes
  n         the immediate
  L         number of result lanes
  I         exact integer (128 bit)
Helpers: W (assign modulo lane width is implicit), SAT<T>(x), SHR(x,n) floor shift, RSHR(x,n) rounding shift.
Operand layout ("place") says which lanes of which argument belong to the same abstract lane state ("slot").
"""
import re

def sz(s): return int(re.sub(r'\D', '', s))
def ety(s):
    return {'s': 'int%d_t', 'u': 'uint%d_t', 'f': 'float%d_t'}[s[0]] % sz(s)
def lanes(s, q): return (128 if q else 64) // sz(s)
def vt(s, q=0, n=1):
    base = {'s': 'int', 'u': 'uint', 'f': 'float'}[s[0]] + str(sz(s)) + 'x' + str(lanes(s, q))
    return base + ('x%d' % n if n > 1 else '') + '_t'
def wide(s): return s[0] + str(sz(s) * 2)
def narrow(s): return s[0] + str(sz(s) // 2)

class Arg:
    """role: v = vector lanes, s = scalar, i = immediate, p = pointer (const), w = pointer (written)"""
    def __init__(self, role, s=None, q=0, nvec=1, comp=0, ofs=0, mode='L', lo=0, hi=0):
        self.role, self.s, self.q, self.nvec, self.comp, self.ofs, self.mode, self.lo, self.hi = role, s, q, nvec, comp, ofs, mode, lo, hi
    @property
    def nl(self): return 1 if self.role == 's' else lanes(self.s, self.q) * self.nvec
    @property
    def ctype(self):
        return {'v': lambda: vt(self.s, self.q, self.nvec), 's': lambda: ety(self.s), 'i': lambda: 'int',
                'p': lambda: ety(self.s) + ' const*', 'w': lambda: ety(self.s) + '*'}[self.role]()

def V(s, q=0, comp=0, ofs=0, nvec=1, mode='L'): return Arg('v', s, q, nvec, comp, ofs, mode)
def S(s, comp): return Arg('s', s, comp=comp)
def IM(lo, hi): return Arg('i', lo=lo, hi=hi)
def PTR(s): return Arg('p', s)
def WPTR(s): return Arg('w', s)

class Op:
    def __init__(self, name, prop, ret, args, comps, ref, nan=False, mem=None):
        self.name, self.prop, self.ret, self.args, self.comps, self.ref, self.nan, self.mem = name, prop, ret, args, comps, ref, nan, mem
    @property
    def imm(self):
        for a in self.args:
            if a.role == 'i': return a
        return None
    @property
    def rctype(self):
        if self.ret is None: return 'void'
        if self.ret[0] == 'scalar': return ety(self.ret[1])
        return vt(*self.ret[1:])
    @property
    def retinfo(self):  # (elem suffix, lanes)
        if self.ret is None: return None
        if self.ret[0] == 'scalar': return (self.ret[1], 1)
        _, s, q, n = (list(self.ret) + [1])[:4]
        return (s, lanes(s, q) * n)

OPS = []
def op(*a, **k): OPS.append(Op(*a, **k))
def R(s, q=0, n=1): return ('vec', s, q, n)

INT8 = 's8 s16 s32 s64 u8 u16 u32 u64'.split()
INT6 = 's8 s16 s32 u8 u16 u32'.split()
FORL = 'for(int l=0;l<L;l++) '

def lane2(name, prop, s, q, e, rs=None, nan=False):
    op(name, prop, R(rs or s, q), [V(s, q, 0), V(s, q, 1)], [s, s], FORL + '{ X x=a0[l], y=a1[l]; o[l]=%s; }' % e, nan=nan)

# ---------------------------------------------------------------- C04
for b, ex in (('vadd', 'x+y'), ('vsub', 'x-y')):
    for q in (0, 1):
        for s in INT8: lane2('%s%s_%s' % (b, 'q' * q, s), 'C04', s, q, ex)
for q in (0, 1):
    for s in INT6: lane2('vmul%s_%s' % ('q' * q, s), 'C04', s, q, 'x*y')
    for s in 's16 s32 u16 u32'.split():
        op('vmul%s_n_%s' % ('q' * q, s), 'C04', R(s, q), [V(s, q, 0), S(s, 1)], [s, s], FORL + '{ X x=a0[l], y=a1[0]; o[l]=x*y; }')
for s in INT6:
    op('vmlaq_' + s, 'C04', R(s, 1), [V(s, 1, 0), V(s, 1, 1), V(s, 1, 2)], [s, s, s], FORL + '{ X x=a0[l], y=a1[l], z=a2[l]; o[l]=x+y*z; }')

# ---------------------------------------------------------------- C05
def widen2(name, s, e, hi=0):
    h = lanes(s, 0) if hi else 0
    op(name, 'C05', R(wide(s), 1), [V(s, hi, 0, h), V(s, hi, 1, h)], [s, s], FORL + '{ X x=a0[l+%d], y=a1[l+%d]; o[l]=%s; }' % (h, h, e))
def widew(name, s, e, hi=0):
    h = lanes(s, 0) if hi else 0
    op(name, 'C05', R(wide(s), 1), [V(wide(s), 1, 0), V(s, hi, 1, h)], [wide(s), s], FORL + '{ X x=a0[l], y=a1[l+%d]; o[l]=%s; }' % (h, e))
widen2('vaddl_u8', 'u8', 'x+y')
for s in INT6:
    widen2('vaddl_high_' + s, s, 'x+y', 1)
    widew('vaddw_' + s, s, 'x+y'); widew('vaddw_high_' + s, s, 'x+y', 1)
    widen2('vsubl_' + s, s, 'x-y'); widew('vsubw_' + s, s, 'x-y')
    op('vmovl_' + s, 'C05', R(wide(s), 1), [V(s, 0, 0)], [s], FORL + '{ X x=a0[l]; o[l]=x; }')
    widen2('vmull_' + s, s, 'x*y')
    for nm, sg in (('vmlal_', '+'), ('vmlsl_', '-')):
        op(nm + s, 'C05', R(wide(s), 1), [V(wide(s), 1, 0), V(s, 0, 1), V(s, 0, 2)], [wide(s), s, s],
           FORL + '{ X x=a0[l], y=a1[l], z=a2[l]; o[l]=x%sy*z; }' % sg)
for s in 's16 s32 u16 u32'.split():
    op('vmull_n_' + s, 'C05', R(wide(s), 1), [V(s, 0, 0), S(s, 1)], [s, s], FORL + '{ X x=a0[l], y=a1[0]; o[l]=x*y; }')
for nm, s, q in (('vpaddl_u8', 'u8', 0), ('vpaddlq_u8', 'u8', 1), ('vpaddlq_u16', 'u16', 1)):
    op(nm, 'C05', R(wide(s), q), [V(s, q, 0, mode='P')], [s, s], FORL + '{ X x=a0[2*l], y=a0[2*l+1]; o[l]=x+y; }')

# ---------------------------------------------------------------- C06
for s in 's16 s32 s64 u16 u32 u64'.split():
    ns, h = narrow(s), sz(s) // 2
    op('vaddhn_high_' + s, 'C06', R(ns, 1), [V(ns, 0, 2), V(s, 1, 0), V(s, 1, 1)], [s, s, ns],
       'for(int l=0;l<L/2;l++) { X x=a1[l], y=a2[l]; o[l]=a0[l]; o[l+L/2]=SHR(x+y,%d); }' % h)
    op('vsubhn_' + s, 'C06', R(ns, 0), [V(s, 1, 0), V(s, 1, 1)], [s, s], FORL + '{ X x=a0[l], y=a1[l]; o[l]=SHR(x-y,%d); }' % h)
    op('vrsubhn_' + s, 'C06', R(ns, 0), [V(s, 1, 0), V(s, 1, 1)], [s, s], FORL + '{ X x=a0[l], y=a1[l]; o[l]=SHR(x-y+((X)1<<%d),%d); }' % (h - 1, h))
for q in (0, 1):
    for s in INT6: lane2('vhsub%s_%s' % ('q' * q, s), 'C06', s, q, 'SHR(x-y,1)')
for s in 's32 u16 u32'.split():
    op('vmovn_' + s, 'C06', R(narrow(s), 0), [V(s, 1, 0)], [s], FORL + '{ X x=a0[l]; o[l]=x; }')

# ---------------------------------------------------------------- C07
for q in (0, 1):
    lane2('vqadd%s_u8' % ('q' * q), 'C07', 'u8', q, 'SAT<uint8_t>(x+y)')
    for s in INT8: lane2('vqsub%s_%s' % ('q' * q, s), 'C07', s, q, 'SAT<%s>(x-y)' % ety(s))
op('vqdmull_s16', 'C07', R('s32', 1), [V('s16', 0, 0), V('s16', 0, 1)], ['s16', 's16'], FORL + '{ X x=a0[l], y=a1[l]; o[l]=SAT<int32_t>(2*x*y); }')
op('vqmovn_u16', 'C07', R('u8', 0), [V('u16', 1, 0)], ['u16'], FORL + '{ X x=a0[l]; o[l]=SAT<uint8_t>(x); }')
op('vqmovun_s16', 'C07', R('u8', 0), [V('s16', 1, 0)], ['s16'], FORL + '{ X x=a0[l]; o[l]=SAT<uint8_t>(x); }')

# ---------------------------------------------------------------- C08 / C09
op('vshr_n_u16', 'C08', R('u16', 0), [V('u16', 0, 0), IM(1, 16)], ['u16'], FORL + '{ X x=a0[l]; o[l]=SHR(x,n); }')
for s in 's16 s32 s64 u16 u32 u64'.split():
    ns, h = narrow(s), sz(s) // 2
    op('vshrn_n_' + s, 'C08', R(ns, 0), [V(s, 1, 0), IM(1, h)], [s], FORL + '{ X x=a0[l]; o[l]=SHR(x,n); }')
    op('vqshrn_n_' + s, 'C09', R(ns, 0), [V(s, 1, 0), IM(1, h)], [s], FORL + '{ X x=a0[l]; o[l]=SAT<%s>(SHR(x,n)); }' % ety(ns))
op('vrshrn_n_u16', 'C08', R('u8', 0), [V('u16', 1, 0), IM(1, 8)], ['u16'], FORL + '{ X x=a0[l]; o[l]=RSHR(x,n); }')
op('vsraq_n_s32', 'C08', R('s32', 1), [V('s32', 1, 0), V('s32', 1, 1), IM(1, 32)], ['s32', 's32'], FORL + '{ X x=a0[l], y=a1[l]; o[l]=x+SHR(y,n); }')
op('vshlq_n_s32', 'C08', R('s32', 1), [V('s32', 1, 0), IM(0, 31)], ['s32'], FORL + '{ X x=a0[l]; o[l]=x*((X)1<<n); }')
op('vshll_n_u8', 'C08', R('u16', 1), [V('u8', 0, 0), IM(0, 7)], ['u8'], FORL + '{ X x=a0[l]; o[l]=x*((X)1<<n); }')
for s in 's16 s32 s64'.split():
    ns, h = 'u' + narrow(s)[1:], sz(s) // 2
    op('vqshrun_n_' + s, 'C09', R(ns, 0), [V(s, 1, 0), IM(1, h)], [s], FORL + '{ X x=a0[l]; o[l]=SAT<%s>(SHR(x,n)); }' % ety(ns))
op('vqrshrun_n_s16', 'C09', R('u8', 0), [V('s16', 1, 0), IM(1, 8)], ['s16'], FORL + '{ X x=a0[l]; o[l]=SAT<uint8_t>(RSHR(x,n)); }')

# ---------------------------------------------------------------- C10
for s in INT6:
    lane2('vmaxq_' + s, 'C10', s, 1, 'x>y?x:y'); lane2('vminq_' + s, 'C10', s, 1, 'x<y?x:y')
for mm in ('max', 'min'):
    op('v%sq_f32' % mm, 'C10', R('f32', 1), [V('f32', 1, 0), V('f32', 1, 1)], ['f32', 'f32'], FORL + 'o[l]=ref_f%s(a0[l],a1[l]);' % mm, nan=True)
    op('vp%s_f32' % mm, 'C10', R('f32', 0), [V('f32', 0, 0, mode='P'), V('f32', 0, 0, mode='P', ofs=2)], ['f32', 'f32'],
       'o[0]=ref_f%s(a0[0],a0[1]); o[1]=ref_f%s(a1[0],a1[1]);' % (mm, mm), nan=True)
op('vcltq_f32', 'C10', R('u32', 1), [V('f32', 1, 0), V('f32', 1, 1)], ['f32', 'f32'], FORL + 'o[l]=(a0[l]<a1[l])?0xffffffffu:0u;')
lane2('vcgtq_u8', 'C10', 'u8', 1, 'x>y?0xff:0')

# ---------------------------------------------------------------- C11
for b, ex in (('vand', '&'), ('vorr', '|'), ('veor', '^')):
    for q in (0, 1):
        for s in INT8: lane2('%s%s_%s' % (b, 'q' * q, s), 'C11', s, q, 'x%sy' % ex)
for q in (0, 1):
    for s in INT6:
        op('vmvn%s_%s' % ('q' * q, s), 'C11', R(s, q), [V(s, q, 0)], [s], FORL + '{ X x=a0[l]; o[l]=-1-x; }')
op('vbslq_u8', 'C11', R('u8', 1), [V('u8', 1, 0), V('u8', 1, 1), V('u8', 1, 2)], ['u8'] * 3, FORL + 'o[l]=(a0[l]&a1[l])|(~a0[l]&a2[l]);')
op('vbslq_f32', 'C11', R('f32', 1), [V('u32', 1, 0), V('f32', 1, 1), V('f32', 1, 2)], ['u32', 'f32', 'f32'],
   FORL + '{ uint32_t m=a0[l],x=fbits(a1+l),y=fbits(a2+l),r=(m&x)|(~m&y); memcpy(o+l,&r,4); }')

# ---------------------------------------------------------------- C12
def perm2x2(name, s, q, e0, e1):
    n = lanes(s, q)
    op(name, 'C12', R(s, q, 2), [V(s, q, 0), V(s, q, 1)], [s, s],
       'const int N=%d; for(int l=0;l<N;l++) { o[l]=%s; o[N+l]=%s; }' % (n, e0, e1))
for q, ss in ((0, INT6), (1, 'u16 u32 s16'.split())):
    for s in ss: perm2x2('vtrn%s_%s' % ('q' * q, s), s, q, '(l%2)?a1[l-1]:a0[l]', '(l%2)?a1[l]:a0[l+1]')
for s in 's8 u8 s16'.split(): perm2x2('vzip_' + s, s, 0, '(l%2)?a1[l/2]:a0[l/2]', '(l%2)?a1[N/2+l/2]:a0[N/2+l/2]')
for s in 's8 u8'.split(): perm2x2('vuzp_' + s, s, 0, 'l<N/2?a0[2*l]:a1[2*l-N]', 'l<N/2?a0[2*l+1]:a1[2*l+1-N]')
for g, ss in ((16, 's8 u8'), (32, 's8 s16 u8 u16'), (64, 's8 s16 s32 u8 u16 u32 f32')):
    for q in (0, 1):
        for s in ss.split():
            k = g // sz(s)
            op('vrev%d%s_%s' % (g, 'q' * q, s), 'C12', R(s, q), [V(s, q, 0)], [s], FORL + 'CP(o+l,a0+(l/%d*%d+%d-l%%%d));' % (k, k, k - 1, k))
for nm, s, q in (('vext_u8', 'u8', 0), ('vext_u16', 'u16', 0), ('vext_s16', 's16', 0), ('vextq_u16', 'u16', 1)):
    op(nm, 'C12', R(s, q), [V(s, q, 0), V(s, q, 1), IM(0, lanes(s, q) - 1)], [s, s], FORL + 'o[l]=(l+n<L)?a0[l+n]:a1[l+n-L];')
for s in INT6:
    op('vcombine_' + s, 'C12', R(s, 1), [V(s, 0, 0), V(s, 0, 1)], [s, s], FORL + 'o[l]=l<L/2?a0[l]:a1[l-L/2];')
for s in INT6 + ['f32']:
    op('vget_low_' + s, 'C12', R(s, 0), [V(s, 1, 0)], [s], FORL + 'CP(o+l,a0+l);')
    op('vget_high_' + s, 'C12', R(s, 0), [V(s, 1, 0)], [s], FORL + 'CP(o+l,a0+L+l);')
for s in INT8: op('vdup_n_' + s, 'C12', R(s, 0), [S(s, 0)], [s], FORL + 'o[l]=a0[0];')
for s in INT6 + ['f32']: op('vdupq_n_' + s, 'C12', R(s, 1), [S(s, 0)], [s], FORL + 'CP(o+l,a0);')
op('vmovq_n_f32', 'C12', R('f32', 1), [S('f32', 0)], ['f32'], FORL + 'CP(o+l,a0);')
op('vget_lane_f32', 'C12', ('scalar', 'f32'), [V('f32', 0, 0), IM(0, 1)], ['f32'], 'CP(o,a0+n);')
for s in INT8 + ['f32', 'f64']:
    op('vgetq_lane_' + s, 'C12', ('scalar', s), [V(s, 1, 0), IM(0, lanes(s, 1) - 1)], [s], 'CP(o,a0+n);')

# ---------------------------------------------------------------- C13
for k in (1, 2, 4):
    op('vtbl%d_u8' % k, 'C13', R('u8', 0), [V('u8', 0, 0, nvec=k), V('u8', 0, 1)], ['u8', 'u8'], FORL + 'o[l]=a1[l]<%d?a0[a1[l]]:0;' % (8 * k))
op('vqtbl1_u8', 'C13', R('u8', 0), [V('u8', 1, 0), V('u8', 0, 1)], ['u8', 'u8'], FORL + 'o[l]=a1[l]<16?a0[a1[l]]:0;')

# ---------------------------------------------------------------- C14
for d, ss in (('s16', 's32'), ('s32', 's16'), ('s8', 'u8'), ('u16', 'u8'), ('u32', 'u16 u8'), ('u8', 's8 u32')):
    for s in ss.split(): op('vreinterpret_%s_%s' % (d, s), 'C14', R(d, 0), [V(s, 0, 0)], [s], 'memcpy(o,a0,8);')
for d, ss in (('s16', 'u16'), ('u16', 's16'), ('u32', 'f32 f64 s16 s32 s64 s8 u16 u64 u8'), ('u8', 'f32 f64 s16 s32 s64 s8 u16 u32 u64')):
    for s in ss.split(): op('vreinterpretq_%s_%s' % (d, s), 'C14', R(d, 1), [V(s, 1, 0)], [s], 'memcpy(o,a0,16);')

# ---------------------------------------------------------------- C15
op('vcvtq_f32_s32', 'C15', R('f32', 1), [V('s32', 1, 0)], ['s32'], FORL + 'o[l]=ref_i2f(a0[l]);')
op('vcvtq_s32_f32', 'C15', R('s32', 1), [V('f32', 1, 0)], ['f32u'], FORL + 'o[l]=ref_f2i(fbits(a0+l),0,true);')
op('vcvtq_u32_f32', 'C15', R('u32', 1), [V('f32', 1, 0)], ['f32u'], FORL + 'o[l]=ref_f2i(fbits(a0+l),0,false);')
op('vcvtnq_s32_f32', 'C15', R('s32', 1), [V('f32', 1, 0)], ['f32u'], FORL + 'o[l]=ref_f2i(fbits(a0+l),1,true);')

# ---------------------------------------------------------------- C16
def fl2(name, s, q, e): op(name, 'C16', R(s, q), [V(s, q, 0), V(s, q, 1)], [s, s], FORL + '{ %s x=a0[l],y=a1[l]; o[l]=%s; }' % (ety(s), e), nan=True)
fl2('vaddq_f32', 'f32', 1, 'x+y'); fl2('vsub_f32', 'f32', 0, 'x-y'); fl2('vsubq_f32', 'f32', 1, 'x-y'); fl2('vsub_f64', 'f64', 0, 'x-y')
fl2('vmulq_f32', 'f32', 1, 'x*y')
for q in (0, 1):
    for s in ('f32', 'f64'):
        fl2('vdiv%s_%s' % ('q' * q, s), s, q, 'x/y')
        op('vmul%s_n_%s' % ('q' * q, s), 'C16', R(s, q), [V(s, q, 0), S(s, 1)], [s, s], FORL + '{ %s x=a0[l],y=a1[0]; o[l]=x*y; }' % ety(s), nan=True)
op('vmlaq_f32', 'C16', R('f32', 1), [V('f32', 1, 0), V('f32', 1, 1), V('f32', 1, 2)], ['f32'] * 3,
   FORL + '{ volatile float m=a1[l]*a2[l]; o[l]=a0[l]+m; }', nan=True)
op('vmlaq_n_f32', 'C16', R('f32', 1), [V('f32', 1, 0), V('f32', 1, 1), S('f32', 2)], ['f32'] * 3,
   FORL + '{ volatile float m=a1[l]*a2[0]; o[l]=a0[l]+m; }', nan=True)

# ---------------------------------------------------------------- C17
op('vrecpeq_f32', 'C17', R('f32', 1), [V('f32', 1, 0)], ['f32u'], FORL + '{ uint32_t r=ref_recpe(fbits(a0+l)); memcpy(o+l,&r,4); }', nan=True)
op('vrecpsq_f32', 'C17', R('f32', 1), [V('f32', 1, 0), V('f32', 1, 1)], ['f32', 'f32'], FORL + 'o[l]=ref_recps(a0[l],a1[l]);', nan=True)

# ---------------------------------------------------------------- C01 / C02 (memory).  mem = (kind, N, lanes)
for s in INT8 + ['f32', 'f64']:
    op('vld1_' + s, 'C01', R(s, 0), [PTR(s)], [s], '', mem=('ld', 1))
for s in INT8 + ['f32']: op('vld1q_' + s, 'C01', R(s, 1), [PTR(s)], [s], '', mem=('ld', 1))
op('vld1q_dup_f32', 'C01', R('f32', 1), [PTR('f32')], ['f32'], '', mem=('dup', 1))
for s in ('s8', 'u8'): op('vld1_lane_' + s, 'C01', R(s, 0), [PTR(s), V(s, 0, 0), IM(0, 7)], [s], '', mem=('ldl', 1))
for s in INT8: op('vst1_' + s, 'C01', None, [WPTR(s), V(s, 0, 0)], [s], '', mem=('st', 1))
for s in INT8 + ['f32']: op('vst1q_' + s, 'C01', None, [WPTR(s), V(s, 1, 0)], [s], '', mem=('st', 1))
for N in (2, 3, 4):
    for s in INT6 + ['f32']: op('vld%d_%s' % (N, s), 'C02', R(s, 0, N), [PTR(s)], [s], '', mem=('ld', N))
    for s in INT6: op('vld%dq_%s' % (N, s), 'C02', R(s, 1, N), [PTR(s)], [s], '', mem=('ld', N))
    op('vld%d_lane_u8' % N, 'C02', R('u8', 0, N), [PTR('u8'), V('u8', 0, 0, nvec=N), IM(0, 7)], ['u8'], '', mem=('ldl', N))
    for q in (0, 1):
        for s in INT6: op('vst%d%s_%s' % (N, 'q' * q, s), 'C02', None, [WPTR(s), V(s, q, 0, nvec=N)], [s], '', mem=('st', N))
op('vst4q_lane_f32', 'C02', None, [WPTR('f32'), V('f32', 1, 0, nvec=4), IM(0, 3)], ['f32'], '', mem=('stl', 4))

BYNAME = {o.name: o for o in OPS}
assert len(BYNAME) == len(OPS)

if __name__ == '__main__':
    import collections
    print(len(OPS), collections.Counter(o.prop for o in OPS))
