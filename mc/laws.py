"""Laws between intrinsics (C23, C24, and chains for C14 and C17): both sides run the library, on every operand state.
A,B,C are the arguments in order, n the immediate.  LO/HI/CAT/SPLAT/BITS/SHUF are plain memory copies (core.hpp)."""
from spec import *
import spec

class Law:
    def __init__(self, name, prop, ret, args, comps, lhs, rhs, nan=False):
        self.name, self.prop, self.ret, self.args, self.comps, self.lhs, self.rhs, self.nan = name, prop, ret, args, comps, lhs, rhs, nan
        self.mem, self.ref = None, None
    rctype = spec.Op.rctype
    retinfo = spec.Op.retinfo
    imm = spec.Op.imm

LAWS = {'C14': [], 'C17': [], 'C21': [], 'C23': [], 'C24': [], 'C26': []}
def law(prop, name, ret, args, comps, lhs, rhs, nan=False):
    LAWS[prop].append(Law(name, prop, ret, args, comps, lhs, rhs, nan))
def have(*names): return all(n in BYNAME for n in names)
def cat(q, d, a, b): return 'CAT<%s>(%s,%s)' % (q, a, b)

# ================================================================ C23
# (a) 128-bit form = 64-bit form on each half
for o in OPS:
    m = re.match(r'^(v[a-z]+?(?:\d\d)?)q_(n_)?([suf]\d+)$', o.name)
    if not m or o.mem or o.ret is None or o.ret[0] != 'vec' or o.imm: continue
    dn = '%s_%s%s' % (m.group(1), m.group(2) or '', m.group(3))
    if dn not in BYNAME or m.group(1).startswith(('vget', 'vext')): continue
    d = BYNAME[dn]
    if len(d.args) != len(o.args): continue
    lo, hi = [], []
    for k, a in enumerate(o.args):
        v = 'ABC'[k]
        if a.role == 's': lo.append(v); hi.append(v)
        else:
            t = d.args[k].ctype
            lo.append('LO<%s>(%s)' % (t, v)); hi.append('HI<%s>(%s)' % (t, v))
    call = lambda l: '%s(%s)' % (dn, ','.join(l))
    if len(o.ret) > 3 and o.ret[3] == 2:   # pairs of vectors (transpose)
        rhs = '({ auto l=%s; auto h=%s; %s r; r.val[0]=CAT<%s>(l.val[0],h.val[0]); r.val[1]=CAT<%s>(l.val[1],h.val[1]); r; })' % (call(lo), call(hi), o.rctype, vt(o.ret[1], 1), vt(o.ret[1], 1))
    else: rhs = 'CAT<%s>(%s,%s)' % (o.rctype, call(lo), call(hi))
    law('C23', '%s = %s on halves' % (o.name, dn), o.ret, o.args, o.comps, '%s(%s)' % (o.name, ','.join('ABC'[:len(o.args)])), rhs, o.nan)
for s in INT6 + ['f32']:
    law('C23', 'vcombine/vget_low/vget_high_%s = halves' % s if s != 'f32' else 'vget_low/vget_high_f32 = halves', R(s, 1), [V(s, 1, 0)], [s],
        'CAT<%s>(vget_low_%s(A),vget_high_%s(A))' % (vt(s, 1), s, s), 'A')
for s in INT8 + ['f32']:
    if have('vld1_' + s, 'vld1q_' + s):
        law('C23', 'vld1q_%s = vld1 on halves' % s, R(s, 1), [V(s, 1, 0)], [s], 'vld1q_%s((const %s*)&A)' % (s, ety(s)),
            'CAT<%s>(vld1_%s((const %s*)&A),vld1_%s((const %s*)&A+%d))' % (vt(s, 1), s, ety(s), s, ety(s), lanes(s, 0)))
        law('C23', 'vst1q_%s = vst1 on halves' % s, R(s, 1), [V(s, 1, 0)], [s], '({ %s r; vst1q_%s((%s*)&r,A); r; })' % (vt(s, 1), s, ety(s)),
            '({ %s r; vst1_%s((%s*)&r,LO<%s>(A)); vst1_%s((%s*)&r+%d,HI<%s>(A)); r; })' % ((vt(s, 1), s, ety(s), vt(s), s, ety(s), lanes(s, 0), vt(s)) if have('vst1_' + s) else (0,) * 8)
            ) if have('vst1_' + s) else None
for N in (2, 3, 4):
    for s in INT6:
        dl, ql, e = 'vld%d_%s' % (N, s), 'vld%dq_%s' % (N, s), ety(s)
        body = ''.join('r.val[%d]=CAT<%s>(l.val[%d],h.val[%d]);' % (k, vt(s, 1), k, k) for k in range(N))
        law('C23', '%s = %s on halves' % (ql, dl), R(s, 1, N), [V(s, 1, 0, nvec=N)], [s], '%s((const %s*)&A)' % (ql, e),
            '({ auto l=%s((const %s*)&A); auto h=%s((const %s*)&A+%d); %s r; %s r; })' % (dl, e, dl, e, N * lanes(s, 0), vt(s, 1, N), body))
        ds, qs = 'vst%d_%s' % (N, s), 'vst%dq_%s' % (N, s)
        lo = ''.join('l.val[%d]=LO<%s>(A.val[%d]);h.val[%d]=HI<%s>(A.val[%d]);' % (k, vt(s), k, k, vt(s), k) for k in range(N))
        law('C23', '%s = %s on halves' % (qs, ds), R(s, 1, N), [V(s, 1, 0, nvec=N)], [s], '({ %s r; %s((%s*)&r,A); r; })' % (vt(s, 1, N), qs, e),
            '({ %s r; %s l,h; %s %s((%s*)&r,l); %s((%s*)&r+%d,h); r; })' % (vt(s, 1, N), vt(s, 0, N), lo, ds, e, ds, e, N * lanes(s, 0)))
# (b) high-half form = low form on the extracted half
for s in INT6:
    law('C23', 'vaddw_high_%s = vaddw on the high half' % s, R(wide(s), 1), [V(wide(s), 1, 0), V(s, 1, 1, lanes(s, 0))], [wide(s), s],
        'vaddw_high_%s(A,B)' % s, 'vaddw_%s(A,HI<%s>(B))' % (s, vt(s)))
    law('C23', 'vaddl_high_%s = widen and add the high halves' % s, R(wide(s), 1), [V(s, 1, 0, lanes(s, 0)), V(s, 1, 1, lanes(s, 0))], [s, s],
        'vaddl_high_%s(A,B)' % s, 'vaddw_%s(vmovl_%s(HI<%s>(A)),HI<%s>(B))' % (s, s, vt(s), vt(s)))
for s in 's16 s32 s64 u16 u32 u64'.split():
    ns, h = narrow(s), sz(s) // 2
    law('C23', 'vaddhn_high_%s = low half, then shifted sum' % s, R(ns, 1), [V(ns, 0, 2), V(s, 1, 0), V(s, 1, 1)], [s, s, ns],
        'vaddhn_high_%s(A,B,C)' % s, 'CAT<%s>(A,vshrn_n_%s(vaddq_%s(B,C),%d))' % (vt(ns, 1), s, s, h))
    law('C23', 'vsubhn_%s = shifted difference' % s, R(ns, 0), [V(s, 1, 0), V(s, 1, 1)], [s, s], 'vsubhn_%s(A,B)' % s, 'vshrn_n_%s(vsubq_%s(A,B),%d)' % (s, s, h))
    law('C23', 'vrsubhn_%s = vsubhn of the raised minuend' % s, R(ns, 0), [V(s, 1, 0), V(s, 1, 1)], [s, s], 'vrsubhn_%s(A,B)' % s,
        'vsubhn_%s(vaddq_%s(A,SPLAT<%s>((%s)(1ll<<%d))),B)' % (s, s, vt(s, 1), ety(s), h - 1))
# (c) by-scalar form = vector form on a splat
for q in (0, 1):
    for s in 's16 s32 u16 u32'.split():
        law('C23', 'vmul%s_n_%s = vmul on a splat' % ('q' * q, s), R(s, q), [V(s, q, 0), S(s, 1)], [s, s], 'vmul%s_n_%s(A,B)' % ('q' * q, s), 'vmul%s_%s(A,SPLAT<%s>(B))' % ('q' * q, s, vt(s, q)))
for s in 's16 s32 u16 u32'.split():
    law('C23', 'vmull_n_%s = vmull on a splat' % s, R(wide(s), 1), [V(s, 0, 0), S(s, 1)], [s, s], 'vmull_n_%s(A,B)' % s, 'vmull_%s(A,vdup_n_%s(B))' % (s, s))
law('C23', 'vmulq_n_f32 = vmulq on a splat', R('f32', 1), [V('f32', 1, 0), S('f32', 1)], ['f32', 'f32'], 'vmulq_n_f32(A,B)', 'vmulq_f32(A,vdupq_n_f32(B))', True)
law('C23', 'vmlaq_n_f32 = vmlaq on a splat', R('f32', 1), [V('f32', 1, 0), V('f32', 1, 1), S('f32', 2)], ['f32'] * 3, 'vmlaq_n_f32(A,B,C)', 'vmlaq_f32(A,B,vdupq_n_f32(C))', True)
law('C23', 'vmlaq_f32 = vaddq of vmulq', R('f32', 1), [V('f32', 1, 0), V('f32', 1, 1), V('f32', 1, 2)], ['f32'] * 3, 'vmlaq_f32(A,B,C)', 'vaddq_f32(A,vmulq_f32(B,C))', True)
law('C23', 'vmovq_n_f32 = vdupq_n_f32', R('f32', 1), [S('f32', 0)], ['f32'], 'vmovq_n_f32(A)', 'vdupq_n_f32(A)')
law('C23', 'vld1q_dup_f32 = vdupq_n_f32', R('f32', 1), [S('f32', 0)], ['f32'], 'vld1q_dup_f32(&A)', 'vdupq_n_f32(A)')
for s in INT6 + ['f32']:
    law('C23', 'vdupq_n_%s = splat of every lane' % s, R(s, 1), [S(s, 0)], [s], 'vdupq_n_%s(A)' % s, 'SPLAT<%s>(A)' % vt(s, 1) if s not in INT8 else 'CAT<%s>(vdup_n_%s(A),vdup_n_%s(A))' % (vt(s, 1), s, s))
# (d) long, wide and accumulating forms = composition of widening and arithmetic
for s in INT6:
    w = wide(s); L2 = [V(s, 0, 0), V(s, 0, 1)]; W2 = [V(w, 1, 0), V(s, 0, 1)]
    law('C23', 'vsubl_%s = vsubq of vmovl' % s, R(w, 1), L2, [s, s], 'vsubl_%s(A,B)' % s, 'vsubq_%s(vmovl_%s(A),vmovl_%s(B))' % (w, s, s))
    law('C23', 'vaddw_%s = vaddq of vmovl' % s, R(w, 1), W2, [w, s], 'vaddw_%s(A,B)' % s, 'vaddq_%s(A,vmovl_%s(B))' % (w, s))
    law('C23', 'vsubw_%s = vsubq of vmovl' % s, R(w, 1), W2, [w, s], 'vsubw_%s(A,B)' % s, 'vsubq_%s(A,vmovl_%s(B))' % (w, s))
    if have('vmulq_' + w): law('C23', 'vmull_%s = vmulq of vmovl' % s, R(w, 1), L2, [s, s], 'vmull_%s(A,B)' % s, 'vmulq_%s(vmovl_%s(A),vmovl_%s(B))' % (w, s, s))
    for nm, c in (('vmlal_', 'vaddq_'), ('vmlsl_', 'vsubq_')):
        law('C23', '%s%s = %s of vmull' % (nm, s, c[:-1]), R(w, 1), [V(w, 1, 0), V(s, 0, 1), V(s, 0, 2)], [w, s, s], '%s%s(A,B,C)' % (nm, s), '%s%s(A,vmull_%s(B,C))' % (c, w, s))
    law('C23', 'vmlaq_%s = vaddq of vmulq' % s, R(s, 1), [V(s, 1, 0), V(s, 1, 1), V(s, 1, 2)], [s] * 3, 'vmlaq_%s(A,B,C)' % s, 'vaddq_%s(A,vmulq_%s(B,C))' % (s, s))
law('C23', 'vaddl_u8 = vaddq of vmovl', R('u16', 1), [V('u8', 0, 0), V('u8', 0, 1)], ['u8', 'u8'], 'vaddl_u8(A,B)', 'vaddq_u16(vmovl_u8(A),vmovl_u8(B))')
law('C23', 'vqdmull_s16 = doubled vmull', R('s32', 1), [V('s16', 0, 0), V('s16', 0, 1)], ['s16', 's16'], 'vqdmull_s16(A,B)',
    '({ int32x4_t p=vmull_s16(A,B); int32x4_t m=vsubq_s32(p,vdupq_n_s32(-1)); (void)m; vqsubq_s32(p,vsubq_s32(vdupq_n_s32(0),p)); })')
law('C23', 'vshll_n_u8 = vmulq_n of vmovl', R('u16', 1), [V('u8', 0, 0), IM(0, 7)], ['u8'], 'vshll_n_u8(A,n)', 'vmulq_n_u16(vmovl_u8(A),(uint16_t)(1<<n))')
law('C23', 'vshlq_n_s32 = vmulq_n by a power of two', R('s32', 1), [V('s32', 1, 0), IM(0, 31)], ['s32'], 'vshlq_n_s32(A,n)', 'vmulq_n_s32(A,(int32_t)(1u<<n))')
law('C23', 'vpaddlq_u16 = vpaddl by halves', R('u32', 1), [V('u16', 1, 0, mode='P')], ['u16', 'u16'], 'vpaddlq_u16(A)',
    '({ uint16x4x2_t e; for(int i=0;i<4;i++){ e.val[0].val[i]=A.val[2*i]; e.val[1].val[i]=A.val[2*i+1]; } vaddw_u16(vmovl_u16(e.val[0]),e.val[1]); })')
for w in (16, 32, 64):
    s, u, k = 's%d' % w, 'u%d' % w, (1 << (w - 1)) - 1
    law('C23', 'vqshrun_n_%s = vqshrn_n_%s on non-negative lanes' % (s, u), R(narrow(u), 0), [V(u, 1, 0), IM(1, w // 2)], [u],
        'vqshrun_n_%s(BITS<%s>(vandq_%s(A,SPLAT<%s>((%s)%dull))),n)' % (s, vt(s, 1), u, vt(u, 1), ety(u), k), 'vqshrn_n_%s(vandq_%s(A,SPLAT<%s>((%s)%dull)),n)' % (u, u, vt(u, 1), ety(u), k))
law('C23', 'vmaxq_u8 = select by vcgtq_u8', R('u8', 1), [V('u8', 1, 0), V('u8', 1, 1)], ['u8', 'u8'], 'vmaxq_u8(A,B)', 'vbslq_u8(vcgtq_u8(A,B),A,B)')
law('C23', 'vminq_u8 = select by vcgtq_u8', R('u8', 1), [V('u8', 1, 0), V('u8', 1, 1)], ['u8', 'u8'], 'vminq_u8(A,B)', 'vbslq_u8(vcgtq_u8(A,B),B,A)')
law('C23', 'vbslq_u8 = and/or composition', R('u8', 1), [V('u8', 1, 0), V('u8', 1, 1), V('u8', 1, 2)], ['u8'] * 3, 'vbslq_u8(A,B,C)', 'vorrq_u8(vandq_u8(A,B),vandq_u8(vmvnq_u8(A),C))')
law('C23', 'vbslq_f32 = vbslq_u8 on the bytes', R('u8', 1), [V('u32', 1, 0), V('u32', 1, 1), V('u32', 1, 2)], ['u32'] * 3,
    'BITS<uint8x16_t>(vbslq_f32(A,BITS<float32x4_t>(B),BITS<float32x4_t>(C)))', 'vbslq_u8(BITS<uint8x16_t>(A),BITS<uint8x16_t>(B),BITS<uint8x16_t>(C))')
for mm in ('max', 'min'):
    law('C23', 'vp%s_f32 = v%sq_f32 of the pairs' % (mm, mm), R('f32', 0), [V('f32', 0, 0, mode='P'), V('f32', 0, 0, mode='P', ofs=2)], ['f32', 'f32'], 'vp%s_f32(A,B)' % mm,
        '({ float32x4_t x=SPLAT<float32x4_t>(0.f),y=x; x.val[0]=A.val[0]; x.val[1]=B.val[0]; y.val[0]=A.val[1]; y.val[1]=B.val[1]; LO<float32x2_t>(v%sq_f32(x,y)); })' % mm, True)
law('C23', 'vqtbl1_u8 = vtbl2_u8', R('u8', 0), [V('u8', 1, 0), V('u8', 0, 1)], ['u8', 'u8'], 'vqtbl1_u8(A,B)', 'vtbl2_u8(BITS<uint8x8x2_t>(A),B)')
law('C23', 'vtbl1_u8 = vtbl2_u8 with a zero second register', R('u8', 0), [V('u8', 0, 0), V('u8', 0, 1)], ['u8', 'u8'], 'vtbl1_u8(A,B)', 'vtbl2_u8(CAT<uint8x8x2_t>(A,SPLAT<uint8x8_t>((uint8_t)0)),B)')
law('C23', 'vtbl2_u8 = vtbl4_u8 with zero upper registers', R('u8', 0), [V('u8', 1, 0), V('u8', 0, 1)], ['u8', 'u8'], 'vtbl2_u8(BITS<uint8x8x2_t>(A),B)', 'vtbl4_u8(CAT<uint8x8x4_t>(A,SPLAT<uint8x16_t>((uint8_t)0)),B)')
law('C23', 'vget_lane_f32 = vgetq_lane_f32 on the low half', ('scalar', 'f32'), [V('f32', 0, 0), IM(0, 1)], ['f32'], 'vget_lane_f32(A,n)', 'vgetq_lane_f32(CAT<float32x4_t>(A,SPLAT<float32x2_t>(7.f)),n)')
law('C23', 'vext_u16 = vext_s16 on the same bits', R('u16', 0), [V('u16', 0, 0), V('u16', 0, 1), IM(0, 3)], ['u16', 'u16'], 'vext_u16(A,B,n)', 'BITS<uint16x4_t>(vext_s16(BITS<int16x4_t>(A),BITS<int16x4_t>(B),n))')
law('C23', 'vextq_u16 = vext_u8 steps over the halves', R('u16', 1), [V('u16', 1, 0), V('u16', 1, 1), IM(0, 3)], ['u16', 'u16'], 'vextq_u16(A,B,n)',
    'CAT<uint16x8_t>(vext_u16(LO<uint16x4_t>(A),HI<uint16x4_t>(A),n),vext_u16(HI<uint16x4_t>(A),LO<uint16x4_t>(B),n))')
law('C23', 'vzip_s16 = vtrn_s16 of the regrouped words', R('s16', 0, 2), [V('s16', 0, 0), V('s16', 0, 1)], ['s16', 's16'], 'vzip_s16(A,B)',
    '({ auto t=vtrn_s16(A,B); auto u=vtrn_s32(BITS<int32x2_t>(t.val[0]),BITS<int32x2_t>(t.val[1])); int16x4x2_t r; r.val[0]=BITS<int16x4_t>(u.val[0]); r.val[1]=BITS<int16x4_t>(u.val[1]); r; })')
law('C23', 'vcltq_f32 agrees with the sign of vmaxq/vminq', R('u32', 1), [V('f32', 1, 0), V('f32', 1, 1)], ['f32', 'f32'], 'vcltq_f32(A,B)',
    '({ uint32x4_t m; float32x4_t mx=vmaxq_f32(A,B),mn=vminq_f32(A,B); for(int i=0;i<4;i++) m.val[i]= (mx.val[i]!=mn.val[i] && mn.val[i]==A.val[i] && mx.val[i]==B.val[i]) ? 0xffffffffu : 0u; m; })')

# ================================================================ C24
def unary(prop, name, s, q, lhs): law(prop, name, R(s, q), [V(s, q, 0)], [s], lhs, 'A')
for o in OPS:
    m = re.match(r'^vrev(16|32|64)(q?)_([suf]\d+)$', o.name)
    if m: unary('C24', o.name + ' twice', m.group(3), len(m.group(2)), '%s(%s(A))' % (o.name, o.name))
    m = re.match(r'^vmvn(q?)_([su]\d+)$', o.name)
    if m: unary('C24', o.name + ' twice', m.group(2), len(m.group(1)), '%s(%s(A))' % (o.name, o.name))
    m = re.match(r'^vtrn(q?)_([su]\d+)$', o.name)
    if m: law('C24', o.name + ' twice', o.ret, o.args, o.comps, '({ auto t=%s(A,B); %s(t.val[0],t.val[1]); })' % (o.name, o.name), 'CAT<%s>(A,B)' % o.rctype)
for s in ('s8', 'u8'):
    for f, g in (('vzip_', 'vuzp_'), ('vuzp_', 'vzip_')):
        law('C24', '%s%s after %s%s' % (g, s, f, s), R(s, 0, 2), [V(s, 0, 0), V(s, 0, 1)], [s, s], '({ auto t=%s%s(A,B); %s%s(t.val[0],t.val[1]); })' % (f, s, g, s), 'CAT<%s>(A,B)' % vt(s, 0, 2))
for s in INT6:
    unary('C24', 'vcombine_%s of low and high' % s, s, 1, 'vcombine_%s(vget_low_%s(A),vget_high_%s(A))' % (s, s, s))
    law('C24', 'vget_low_%s, vget_high after vcombine' % s, R(s, 1), [V(s, 0, 0), V(s, 0, 1)], [s, s], '({ auto t=vcombine_%s(A,B); CAT<%s>(vget_low_%s(t),vget_high_%s(t)); })' % (s, vt(s, 1), s, s), 'CAT<%s>(A,B)' % vt(s, 1))
for s in INT8 + ['f32']:
    for q in (0, 1):
        if have('vld1%s_%s' % ('q' * q, s), 'vst1%s_%s' % ('q' * q, s)):
            unary('C24', 'vld1%s_%s after vst1' % ('q' * q, s), s, q, '({ %s m; vst1%s_%s((%s*)&m,A); vld1%s_%s((const %s*)&m); })' % (vt(s, q), 'q' * q, s, ety(s), 'q' * q, s, ety(s)))
for N in (2, 3, 4):
    for q in (0, 1):
        for s in INT6:
            l, st = 'vld%d%s_%s' % (N, 'q' * q, s), 'vst%d%s_%s' % (N, 'q' * q, s)
            law('C24', '%s after %s' % (l, st), R(s, q, N), [V(s, q, 0, nvec=N)], [s], '({ %s m; %s((%s*)&m,A); %s((const %s*)&m); })' % (vt(s, q, N), st, ety(s), l, ety(s)), 'A')
            law('C24', '%s after %s' % (st, l), R(s, q, N), [V(s, q, 0, nvec=N)], [s], '({ %s m; %s((%s*)&m,%s((const %s*)&A)); m; })' % (vt(s, q, N), st, ety(s), l, ety(s)), 'A')
for s in ('s8', 'u8'):
    law('C24', 'vld1_lane_%s of its own lane' % s, R(s, 0), [V(s, 0, 0), IM(0, 7)], [s], 'vld1_lane_%s((const %s*)&A+n,A,n)' % (s, ety(s)), 'A')
for s in ('s16', 'u8', 'u16'):
    unary('C24', 'vmovn after vmovl_' + s, s, 0, 'vmovn_%s(vmovl_%s(A))' % (wide(s), s))
unary('C24', 'vqmovn after vmovl_u8', 'u8', 0, 'vqmovn_u16(vmovl_u8(A))')
law('C24', 'vqmovun after widening', R('u8', 0), [V('u8', 0, 0)], ['u8'], 'vqmovun_s16(BITS<int16x8_t>(vmovl_u8(A)))', 'A')
law('C24', 'vshrn_n after vshll_n_u8', R('u8', 0), [V('u8', 0, 0), IM(1, 7)], ['u8'], 'vshrn_n_u16(vshll_n_u8(A,n),n)', 'A')
law('C24', 'vqshrn_n after vshll_n_u8', R('u8', 0), [V('u8', 0, 0), IM(1, 7)], ['u8'], 'vqshrn_n_u16(vshll_n_u8(A,n),n)', 'A')
law('C24', 'vrshrn_n after vshll_n_u8', R('u8', 0), [V('u8', 0, 0), IM(1, 7)], ['u8'], 'vrshrn_n_u16(vshll_n_u8(A,n),n)', 'A')
for q in (0, 1):
    for s in INT8:
        Q = 'q' * q; A2 = [V(s, q, 0), V(s, q, 1)]
        law('C24', 'vsub%s_%s after vadd' % (Q, s), R(s, q), A2, [s, s], 'vsub%s_%s(vadd%s_%s(A,B),B)' % (Q, s, Q, s), 'A')
        law('C24', 'vadd%s_%s after vsub' % (Q, s), R(s, q), A2, [s, s], 'vadd%s_%s(vsub%s_%s(A,B),B)' % (Q, s, Q, s), 'A')
        law('C24', 'veor%s_%s twice' % (Q, s), R(s, q), A2, [s, s], 'veor%s_%s(veor%s_%s(A,B),B)' % (Q, s, Q, s), 'A')
        law('C24', 'vorr%s/vand%s_%s absorption' % (Q, Q, s), R(s, q), A2, [s, s], 'vorr%s_%s(vand%s_%s(A,B),A)' % (Q, s, Q, s), 'A')
for s in INT6:
    w = wide(s)
    law('C24', 'vsubw_%s after vaddw' % s, R(w, 1), [V(w, 1, 0), V(s, 0, 1)], [w, s], 'vsubw_%s(vaddw_%s(A,B),B)' % (s, s), 'A')
    law('C24', 'vmlsl_%s after vmlal' % s, R(w, 1), [V(w, 1, 0), V(s, 0, 1), V(s, 0, 2)], [w, s, s], 'vmlsl_%s(vmlal_%s(A,B,C),B,C)' % (s, s), 'A')
    law('C24', 'vsubq after vmlaq_%s' % s, R(s, 1), [V(s, 1, 0), V(s, 1, 1), V(s, 1, 2)], [s] * 3, 'vsubq_%s(vmlaq_%s(A,B,C),vmulq_%s(B,C))' % (s, s, s), 'A')
law('C24', 'vbslq_u8 with the complementary mask', R('u8', 1), [V('u8', 1, 0), V('u8', 1, 1), V('u8', 1, 2)], ['u8'] * 3, 'vbslq_u8(A,B,C)', 'vbslq_u8(vmvnq_u8(A),C,B)')
law('C24', 'vbslq_f32 with the complementary mask', R('f32', 1), [V('u32', 1, 0), V('f32', 1, 1), V('f32', 1, 2)], ['u32', 'f32', 'f32'], 'vbslq_f32(A,B,C)', 'vbslq_f32(vmvnq_u32(A),C,B)')
law('C24', 'vbslq_u8 of complementary selections', R('u8', 1), [V('u8', 1, 0), V('u8', 1, 1), V('u8', 1, 2)], ['u8'] * 3, 'vbslq_u8(A,vbslq_u8(A,B,C),vbslq_u8(vmvnq_u8(A),B,C))', 'B')
law('C24', 'vbslq_f32 of one value', R('f32', 1), [V('u32', 1, 0), V('f32', 1, 1)], ['u32', 'f32'], 'vbslq_f32(A,B,B)', 'B')
for nm, s, q in (('vext_u8', 'u8', 0), ('vext_u16', 'u16', 0), ('vext_s16', 's16', 0), ('vextq_u16', 'u16', 1)):
    k = lanes(s, q)
    law('C24', nm + ' rotation there and back', R(s, q), [V(s, q, 0), IM(1, k - 1)], [s], '({ auto t=%s(A,A,n); %s(t,t,%d-n); })' % (nm, nm, k), 'A')
for s in INT6 + ['f32']:
    law('C24', 'vgetq_lane after vdupq_n_' + s, ('scalar', s), [S(s, 0), IM(0, lanes(s, 1) - 1)], [s], 'vgetq_lane_%s(vdupq_n_%s(A),n)' % (s, s), 'A')
for P in ('C24', 'C14'):
    for a, b, q in (('s16', 's32', 0), ('s8', 'u8', 0), ('u8', 'u32', 0), ('s16', 'u16', 1), ('u32', 'u8', 1)):
        f = 'vreinterpret' + 'q' * q
        for x, y in ((a, b), (b, a)):
            unary(P, '%s %s to %s and back' % (f, x, y), x, q, '%s_%s_%s(%s_%s_%s(A))' % (f, x, y, f, y, x))
for s in 'f32 f64 s16 s32 s64 s8 u16 u64'.split():
    law('C14', 'vreinterpretq %s to u32 directly and through u8' % s, R('u32', 1), [V(s, 1, 0)], [s], 'vreinterpretq_u32_u8(vreinterpretq_u8_%s(A))' % s, 'vreinterpretq_u32_%s(A)' % s)
    law('C14', 'vreinterpretq %s to u8 directly and through u32' % s, R('u8', 1), [V(s, 1, 0)], [s], 'vreinterpretq_u8_u32(vreinterpretq_u32_%s(A))' % s, 'vreinterpretq_u8_%s(A)' % s)
# ================================================================ C17: one estimate, two steps
law('C17', 'vrecpeq_f32 refined by two vrecpsq_f32 steps', R('u32', 1), [V('f32', 1, 0)], ['f32u'],
    '({ float32x4_t e=vrecpeq_f32(A); e=vmulq_f32(vrecpsq_f32(A,e),e); e=vmulq_f32(vrecpsq_f32(A,e),e); nr_close(A,e); })', 'SPLAT<uint32x4_t>(1u)')
# ================================================================ C26: algebra
COMM = r'^(vaddq?|vmulq?|vandq?|vorrq?|veorq?|vmaxq?|vminq?|vmull|vaddl(_high)?|vqaddq?|vqdmull)_([suf]\d+)$'
def call(nm, *a): return '%s(%s)' % (nm, ','.join(a))
for o in OPS:
    if o.mem or o.ret is None or o.ret[0] != 'vec': continue
    m = re.match(COMM, o.name)
    if m: law('C26', o.name + ' commutes', o.ret, o.args, o.comps, call(o.name, 'A', 'B'), call(o.name, 'B', 'A'), o.nan)
    m = re.match(r'^(vmlaq|vmlal|vmlsl)_([suf]\d+)$', o.name)
    if m: law('C26', o.name + ' commutes in the factors', o.ret, o.args, o.comps, call(o.name, 'A', 'B', 'C'), call(o.name, 'A', 'C', 'B'), o.nan)
    m = re.match(r'^(vaddq|vmulq|vandq|vorrq|veorq|vmaxq|vminq|vqaddq)_([suf]\d+)$', o.name)
    if m and (m.group(2)[0] != 'f' or m.group(1) in ('vmaxq', 'vminq')) and (m.group(1) != 'vqaddq' or m.group(2)[0] == 'u'):
        t = m.group(2)
        law('C26', o.name + ' associates', o.ret, [V(t, 1, k) for k in range(3)], [t] * 3, call(o.name, call(o.name, 'A', 'B'), 'C'), call(o.name, 'A', call(o.name, 'B', 'C')), o.nan)
    m = re.match(r'^(vandq?|vorrq?|vmaxq?|vminq?)_([suf]\d+)$', o.name)
    if m and m.group(2)[0] != 'f': law('C26', o.name + ' of equal operands', o.ret, [V(m.group(2), o.args[0].q, 0)], [m.group(2)], call(o.name, 'A', 'A'), 'A')
    m = re.match(r'^(veorq?|vsubq?|vqsubq?|vhsubq?)_([su]\d+)$', o.name)
    if m: law('C26', o.name + ' of equal operands is zero', o.ret, [V(m.group(2), o.args[0].q, 0)], [m.group(2)], call(o.name, 'A', 'A'), 'SPLAT<%s>((%s)0)' % (o.rctype, ety(m.group(2))))
    # lanes are treated alike: reversing the lanes of every operand reverses the result
    if o.imm is None and re.match(r'^v(add|sub|mul|mla|hsub|qadd|qsub|max|min|and|orr|eor|mvn|div|clt|cgt|bsl|recpe|recps|cvt|cvtn)(q?)(_n)?_', o.name) and o.ret[2] == 1 or re.match(r'^v(add|sub|mul|hsub|qadd|qsub|and|orr|eor|mvn|div)(_n)?_', o.name):
        if any(a.role == 'v' and (a.q != o.ret[2] or lanes(a.s, a.q) != lanes(o.ret[1], o.ret[2])) for a in o.args) or o.retinfo[1] == 1: continue
        ar = ['REVL(%s)' % 'ABC'[k] if a.role == 'v' else 'ABC'[k] for k, a in enumerate(o.args)]
        law('C26', o.name + ' treats all lanes alike', o.ret, o.args, o.comps, 'REVL(%s)' % call(o.name, *ar), call(o.name, *'ABC'[:len(o.args)]), o.nan)
for q in (0, 1):
    Q = 'q' * q
    for s in INT8:
        A2, T = [V(s, q, 0), V(s, q, 1)], vt(s, q)
        zero = 'SPLAT<%s>((%s)0)' % (T, ety(s)); ones = 'SPLAT<%s>((%s)-1)' % (T, ety(s))
        f = lambda n: 'v%s%s_%s' % (n, Q, s)
        law('C26', f('add') + ' of zero', R(s, q), [V(s, q, 0)], [s], call(f('add'), 'A', zero), 'A')
        law('C26', f('sub') + ' through the complement', R(s, q), A2, [s, s], call(f('sub'), 'A', 'B'), call(f('eor'), call(f('add'), call(f('eor'), 'A', ones), 'B'), ones))
        law('C26', f('sub') + ' is the negated difference', R(s, q), A2, [s, s], call(f('sub'), 'A', 'B'), call(f('sub'), zero, call(f('sub'), 'B', 'A')))
        law('C26', f('add') + ' = carry-less sum plus doubled carries', R(s, q), A2, [s, s], call(f('add'), 'A', 'B'), call(f('add'), call(f('eor'), 'A', 'B'), '({ auto c=%s; %s; })' % (call(f('and'), 'A', 'B'), call(f('add'), 'c', 'c'))))
        law('C26', f('orr') + ' by De Morgan', R(s, q), A2, [s, s], call(f('orr'), 'A', 'B'), call(f('eor'), ones, call(f('and'), call(f('eor'), ones, 'A'), call(f('eor'), ones, 'B'))))
        law('C26', f('eor') + ' = or without and', R(s, q), A2, [s, s], call(f('eor'), 'A', 'B'), call(f('sub'), call(f('orr'), 'A', 'B'), call(f('and'), 'A', 'B')))
        if have(f('qsub')):
            if s[0] == 'u': law('C26', f('qsub') + ' plus the reverse is the distance', R(s, q), A2, [s, s], call(f('and'), call(f('qsub'), 'A', 'B'), call(f('qsub'), 'B', 'A')), zero)
            law('C26', f('qsub') + ' of zero', R(s, q), [V(s, q, 0)], [s], call(f('qsub'), 'A', zero), 'A')
            if s[0] == 's': law('C26', f('qsub') + ' through the complement', R(s, q), A2, [s, s], call(f('qsub'), call(f('eor'), ones, 'A'), call(f('eor'), ones, 'B')), call(f('qsub'), 'B', 'A'))
        if have(f('hsub')):
            law('C26', f('hsub') + ' through the complement', R(s, q), A2, [s, s], call(f('hsub'), call(f('eor'), ones, 'A'), call(f('eor'), ones, 'B')), call(f('hsub'), 'B', 'A'))
        if have(f('mvn')): law('C26', f('mvn') + ' = exclusive-or with ones', R(s, q), [V(s, q, 0)], [s], call(f('mvn'), 'A'), call(f('eor'), 'A', ones))
        if have(f('mul')):
            law('C26', f('mul') + ' by minus one', R(s, q), [V(s, q, 0)], [s], call(f('mul'), 'A', ones), call(f('sub'), zero, 'A'))
            law('C26', f('mul') + ' distributes', R(s, q), [V(s, q, k) for k in range(3)], [s] * 3, call(f('mul'), 'A', call(f('add'), 'B', 'C')), call(f('add'), call(f('mul'), 'A', 'B'), call(f('mul'), 'A', 'C')))
        law('C26', f('and') + ' distributes', R(s, q), [V(s, q, k) for k in range(3)], [s] * 3, call(f('and'), 'A', call(f('orr'), 'B', 'C')), call(f('orr'), call(f('and'), 'A', 'B'), call(f('and'), 'A', 'C')))
        if have(f('max'), f('min')):
            law('C26', f('max') + ' and vmin keep the sum', R(s, q), A2, [s, s], call(f('add'), call(f('max'), 'A', 'B'), call(f('min'), 'A', 'B')), call(f('add'), 'A', 'B'))
            law('C26', f('max') + ' and vmin keep the bits', R(s, q), A2, [s, s], call(f('eor'), call(f('max'), 'A', 'B'), call(f('min'), 'A', 'B')), call(f('eor'), 'A', 'B'))
            law('C26', f('max') + ' is dual to vmin', R(s, q), A2, [s, s], call(f('max'), 'A', 'B'), call(f('eor'), ones, call(f('min'), call(f('eor'), ones, 'A'), call(f('eor'), ones, 'B'))))
            law('C26', f('max') + ' distributes over vmin', R(s, q), [V(s, q, k) for k in range(3)], [s] * 3, call(f('max'), 'A', call(f('min'), 'B', 'C')), call(f('min'), call(f('max'), 'A', 'B'), call(f('max'), 'A', 'C')))
            if s[0] == 'u' and have(f('qsub')): law('C26', f('max') + ' = saturated excess plus the other', R(s, q), A2, [s, s], call(f('max'), 'A', 'B'), call(f('add'), call(f('qsub'), 'A', 'B'), 'B'))
            z, w = 'u' + s[1:], sz(s)
            if s[0] == 's':
                top = 'SPLAT<%s>((%s)(1ull<<%d))' % (vt(s, q), ety(s), w - 1)
                tu = 'SPLAT<%s>((%s)(1ull<<%d))' % (vt(z, q), ety(z), w - 1)
                for mm in ('max', 'min'):
                    law('C26', 'v%s%s_%s and its unsigned form under an offset' % (mm, Q, s), R(z, q), [V(z, q, 0), V(z, q, 1)], [z, z], 'v%s%s_%s(A,B)' % (mm, Q, z),
                        'BITS<%s>(veor%s_%s(v%s%s_%s(veor%s_%s(BITS<%s>(A),%s),veor%s_%s(BITS<%s>(B),%s)),%s))' % (vt(z, q), Q, s, mm, Q, s, Q, s, vt(s, q), top, Q, s, vt(s, q), top, top))
        # signed and unsigned forms of an operation on the same bits
        if s[0] == 's':
            z = 'u' + s[1:]
            for n in ('add', 'sub', 'mul', 'and', 'orr', 'eor'):
                if have(f(n), 'v%s%s_%s' % (n, Q, z)): law('C26', '%s and its unsigned form' % f(n), R(z, q), [V(z, q, 0), V(z, q, 1)], [z, z], 'v%s%s_%s(A,B)' % (n, Q, z), 'BITS<%s>(%s(BITS<%s>(A),BITS<%s>(B)))' % (vt(z, q), f(n), T, T))
            if have(f('qsub')):
                top = 'SPLAT<%s>((%s)(1ull<<%d))' % (T, ety(s), sz(s) - 1)
for w in (16, 32, 64):
    u, s, h = 'u%d' % w, 's%d' % w, w // 2
    nu = narrow(u)
    for n in ('vshrn_n',):
        law('C26', '%s_%s and its unsigned form' % (n, s), R(nu, 0), [V(u, 1, 0), IM(1, h)], [u], '%s_%s(A,n)' % (n, u), 'BITS<%s>(%s_%s(BITS<%s>(A),n))' % (vt(nu), n, s, vt(s, 1)))
    for n in ('vsubhn', 'vrsubhn'):
        law('C26', '%s_%s and its unsigned form' % (n, s), R(nu, 0), [V(u, 1, 0), V(u, 1, 1)], [u, u], '%s_%s(A,B)' % (n, u), 'BITS<%s>(%s_%s(BITS<%s>(A),BITS<%s>(B)))' % (vt(nu), n, s, vt(s, 1), vt(s, 1)))
    law('C26', 'vaddhn_high_%s commutes in the addends' % u, R(nu, 1), [V(nu, 0, 2), V(u, 1, 0), V(u, 1, 1)], [u, u, nu], 'vaddhn_high_%s(A,B,C)' % u, 'vaddhn_high_%s(A,C,B)' % u)
    law('C26', 'vqshrn_n_%s of the complement' % s, R('s%d' % h, 0), [V(s, 1, 0), IM(1, h)], [s], 'vqshrn_n_%s(veorq_%s(A,SPLAT<%s>((%s)-1)),n)' % (s, s, vt(s, 1), ety(s)), 'veor_s%d(vqshrn_n_%s(A,n),SPLAT<%s>((%s)-1))' % (h, s, vt('s%d' % h), ety('s%d' % h)))
law('C26', 'vqadd_u8 through the complement', R('u8', 0), [V('u8', 0, 0), V('u8', 0, 1)], ['u8', 'u8'], 'vqadd_u8(A,B)', 'vmvn_u8(vqsub_u8(vmvn_u8(A),B))')
law('C26', 'vqaddq_u8 through the complement', R('u8', 1), [V('u8', 1, 0), V('u8', 1, 1)], ['u8', 'u8'], 'vqaddq_u8(A,B)', 'vmvnq_u8(vqsubq_u8(vmvnq_u8(A),B))')
law('C26', 'vcgtq_u8 is false both ways only for equal lanes', R('u8', 1), [V('u8', 1, 0), V('u8', 1, 1)], ['u8', 'u8'], 'vorrq_u8(vcgtq_u8(A,B),vcgtq_u8(B,A))', 'vcgtq_u8(veorq_u8(A,B),SPLAT<uint8x16_t>((uint8_t)0))')
law('C26', 'vcgtq_u8 is asymmetric', R('u8', 1), [V('u8', 1, 0), V('u8', 1, 1)], ['u8', 'u8'], 'vandq_u8(vcgtq_u8(A,B),vcgtq_u8(B,A))', 'SPLAT<uint8x16_t>((uint8_t)0)')
law('C26', 'vcgtq_u8 is transitive', R('u8', 1), [V('u8', 1, k) for k in range(3)], ['u8'] * 3, 'vandq_u8(vandq_u8(vcgtq_u8(A,B),vcgtq_u8(B,C)),vmvnq_u8(vcgtq_u8(A,C)))', 'SPLAT<uint8x16_t>((uint8_t)0)')
law('C26', 'vcltq_f32 is asymmetric', R('u32', 1), [V('f32', 1, 0), V('f32', 1, 1)], ['f32', 'f32'], 'vandq_u32(vcltq_f32(A,B),vcltq_f32(B,A))', 'SPLAT<uint32x4_t>(0u)')
law('C26', 'vcltq_f32 of negated operands', R('u32', 1), [V('f32', 1, 0), V('f32', 1, 1)], ['f32', 'f32'], 'vcltq_f32(NEGF(A),NEGF(B))', 'vcltq_f32(B,A)')
law('C26', 'vcltq_f32 is transitive', R('u32', 1), [V('f32', 1, k) for k in range(3)], ['f32'] * 3, 'vandq_u32(vandq_u32(vcltq_f32(A,B),vcltq_f32(B,C)),vmvnq_u32(vcltq_f32(A,C)))', 'SPLAT<uint32x4_t>(0u)')
F2 = [V('f32', 1, 0), V('f32', 1, 1)]
law('C26', 'vmaxq_f32 is dual to vminq_f32', R('f32', 1), F2, ['f32', 'f32'], 'vmaxq_f32(A,B)', 'NEGF(vminq_f32(NEGF(A),NEGF(B)))', True)
law('C26', 'vmaxq_f32 distributes over vminq_f32', R('f32', 1), [V('f32', 1, k) for k in range(3)], ['f32'] * 3, 'vmaxq_f32(A,vminq_f32(B,C))', 'vminq_f32(vmaxq_f32(A,B),vmaxq_f32(A,C))', True)
law('C26', 'vsubq_f32 = vaddq_f32 of the negated operand', R('f32', 1), F2, ['f32', 'f32'], 'vsubq_f32(A,B)', 'vaddq_f32(A,NEGF(B))', True)
law('C26', 'vmulq_f32 and signs', R('f32', 1), F2, ['f32', 'f32'], 'vmulq_f32(NEGF(A),B)', 'NEGF(vmulq_f32(A,B))', True)
law('C26', 'vmulq_f32 of both negated', R('f32', 1), F2, ['f32', 'f32'], 'vmulq_f32(NEGF(A),NEGF(B))', 'vmulq_f32(A,B)', True)
law('C26', 'vmulq_f32 by two = sum with itself', R('f32', 1), [V('f32', 1, 0)], ['f32'], 'vmulq_n_f32(A,2.f)', 'vaddq_f32(A,A)', True)
for s, q in (('f32', 1), ('f32', 0), ('f64', 1)):
    f = 'vdiv%s_%s' % ('q' * q, s)
    law('C26', f + ' and signs', R(s, q), [V(s, q, 0), V(s, q, 1)], [s, s], '%s(NEGF(A),B)' % f, 'NEGF(%s(A,B))' % f, True)
    law('C26', f + ' of both negated', R(s, q), [V(s, q, 0), V(s, q, 1)], [s, s], '%s(NEGF(A),NEGF(B))' % f, '%s(A,B)' % f, True)
    law('C26', f + ' by one', R(s, q), [V(s, q, 0)], [s], '%s(A,SPLAT<%s>((%s)1))' % (f, vt(s, q), ety(s)), 'A', True)
law('C26', 'vdivq_f32 by two = product with a half', R('f32', 1), [V('f32', 1, 0)], ['f32'], 'vdivq_f32(A,SPLAT<float32x4_t>(2.f))', 'vmulq_n_f32(A,.5f)', True)
law('C26', 'vrecpeq_f32 and signs', R('f32', 1), [V('f32', 1, 0)], ['f32'], 'vrecpeq_f32(NEGF(A))', 'NEGF(vrecpeq_f32(A))', True)
law('C26', 'vrecpsq_f32 commutes', R('f32', 1), F2, ['f32', 'f32'], 'vrecpsq_f32(A,B)', 'vrecpsq_f32(B,A)', True)
law('C26', 'vrecpsq_f32 of both negated', R('f32', 1), F2, ['f32', 'f32'], 'vrecpsq_f32(NEGF(A),NEGF(B))', 'vrecpsq_f32(A,B)', True)
law('C26', 'vcvtq_f32_s32 is odd', R('f32', 1), [V('s32', 1, 0)], ['s32'], 'vcvtq_f32_s32(vmaxq_s32(A,SPLAT<int32x4_t>(-2147483647)))', '({ int32x4_t c=vmaxq_s32(A,SPLAT<int32x4_t>(-2147483647)); float32x4_t z=SPLAT<float32x4_t>(0.f); vsubq_f32(z,vcvtq_f32_s32(vsubq_s32(SPLAT<int32x4_t>(0),c))); })')
law('C26', 'vcvtq_s32_f32 keeps order', R('s32', 1), F2, ['f32', 'f32'], '({ float32x4_t z=SPLAT<float32x4_t>(-__builtin_inff()); float32x4_t x=NONAN(A),y=NONAN(B); vcvtq_s32_f32(vmaxq_f32(x,y)); })', 'vmaxq_s32(vcvtq_s32_f32(NONAN(A)),vcvtq_s32_f32(NONAN(B)))')
law('C26', 'vcvtq_u32_f32 keeps order', R('u32', 1), F2, ['f32', 'f32'], 'vcvtq_u32_f32(vmaxq_f32(NONAN(A),NONAN(B)))', 'vmaxq_u32(vcvtq_u32_f32(NONAN(A)),vcvtq_u32_f32(NONAN(B)))')
law('C26', 'vcvtnq_s32_f32 keeps order', R('s32', 1), F2, ['f32', 'f32'], 'vcvtnq_s32_f32(vmaxq_f32(NONAN(A),NONAN(B)))', 'vmaxq_s32(vcvtnq_s32_f32(NONAN(A)),vcvtnq_s32_f32(NONAN(B)))')
law('C26', 'vcvtq_s32_f32 after vcvtq_f32_s32 of small integers', R('s32', 1), [V('s32', 1, 0)], ['s32'], 'vcvtq_s32_f32(vcvtq_f32_s32(vandq_s32(A,SPLAT<int32x4_t>(0xffffff))))', 'vandq_s32(A,SPLAT<int32x4_t>(0xffffff))')
law('C26', 'vcvtq_f32_s32 keeps order', R('f32', 1), [V('s32', 1, 0), V('s32', 1, 1)], ['s32', 's32'], 'vcvtq_f32_s32(vmaxq_s32(A,B))', 'vmaxq_f32(vcvtq_f32_s32(A),vcvtq_f32_s32(B))')
law('C26', 'vtbl1_u8 of the identity table', R('u8', 0), [V('u8', 0, 0)], ['u8'], 'vtbl1_u8(BITS<uint8x8_t>((uint64_t)0x0706050403020100ull),A)', '({ uint8x8_t r; for(int i=0;i<8;i++) r.val[i]=A.val[i]<8?A.val[i]:0; r; })')
law('C26', 'vtbl1_u8 composes', R('u8', 0), [V('u8', 0, k) for k in range(3)], ['u8'] * 3, '({ uint8x8_t m=SPLAT<uint8x8_t>((uint8_t)7); uint8x8_t c=vand_u8(C,m); vtbl1_u8(vtbl1_u8(A,vand_u8(B,m)),c); })', '({ uint8x8_t m=SPLAT<uint8x8_t>((uint8_t)7); vtbl1_u8(A,vtbl1_u8(vand_u8(B,m),vand_u8(C,m))); })')
for s in 's8 u8 s16 s32 u16 u32'.split():
    for q in (0, 1):
        Q = 'q' * q; L = lanes(s, q)
        if have('vrev64%s_%s' % (Q, s), 'vtrn%s_%s' % (Q, s)): law('C26', 'vtrn%s_%s of the doubleword reversals' % (Q, s), R(s, q, 2), [V(s, q, 0), V(s, q, 1)], [s, s], 'vtrn%s_%s(vrev64%s_%s(A),vrev64%s_%s(B))' % (Q, s, Q, s, Q, s),
            '({ auto t=vtrn%s_%s(B,A); %s r; r.val[0]=vrev64%s_%s(t.val[1]); r.val[1]=vrev64%s_%s(t.val[0]); r; })' % (Q, s, vt(s, q, 2), Q, s, Q, s))
for w, names in ((8, ('s8', 'u8')),):
    for s in names:
        for Q, q in (('', 0), ('q', 1)):
            law('C26', 'vrev64%s_%s = vrev32 of vrev64 of the words' % (Q, s), R(s, q), [V(s, q, 0)], [s], 'vrev64%s_%s(A)' % (Q, s), 'BITS<%s>(vrev64%s_s32(BITS<%s>(vrev32%s_%s(A))))' % (vt(s, q), Q, vt('s32', q), Q, s))
            law('C26', 'vrev32%s_%s = vrev16 of vrev32 of the halfwords' % (Q, s), R(s, q), [V(s, q, 0)], [s], 'vrev32%s_%s(A)' % (Q, s), 'vrev16%s_%s(BITS<%s>(vrev32%s_s16(BITS<%s>(A))))' % (Q, s, vt(s, q), Q, vt('s16', q)))
if __name__ == '__main__':
    for k, v in LAWS.items(): print(k, len(v), len({l.name for l in v}))

# ================================================================ C21: loads and stores as functions of register-sized memory, for the cross-build comparison
for o in OPS:
    if not o.mem: continue
    v = [a for a in o.args if a.role == 'v']
    p = [a for a in o.args if a.role in 'pw'][0]
    im = [a for a in o.args if a.role == 'i']
    s = p.s
    c = s if s[0] != 'f' else 'u' + s[1:]
    if o.mem[0] in ('ld', 'dup'):
        _, _, q, n = (list(o.ret) + [1])[:4]
        law('C21', o.name, o.ret, [V(s, q, 0, nvec=n)], [c], '%s(OFFP<%s>(A))' % (o.name, ety(s)), 'A')
    elif o.mem[0] == 'ldl':
        n = v[0].nvec
        law('C21', o.name, o.ret, [V(s, 0, 0, nvec=n), V(s, 0, 1, nvec=n), IM(0, 7)], [c, c], '%s(OFFP<%s>(A),B,n)' % (o.name, ety(s)), 'A')
    else:
        a = v[0]; t = vt(s, a.q, a.nvec)
        law('C21', o.name, R(s, a.q, a.nvec), [V(s, a.q, 0, nvec=a.nvec)] + ([IM(im[0].lo, im[0].hi)] if im else []), [c],
            '({ %s m; memset(&m,0x5a,sizeof m); %s* p=OFFP<%s>(m); %s(p,A%s); memcpy(&m,p,sizeof m); m; })' % (t, ety(s), ety(s), o.name, ',n' if im else ''), 'A')
