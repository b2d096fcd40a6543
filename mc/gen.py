#!/usr/bin/env python3
"""Generates the operation table translation units for a set of properties.
usage: gen.py OUTDIR NSHARDS SELECTOR...   SELECTOR = property id | all | laws:C23 | laws:C24"""
import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import spec

def arginfo(a):
    eb = 0 if a.role == 'i' else spec.sz(a.s) // 8
    nl = a.nl if a.role in 'vs' else 0
    return "{'%s','%s',%d,%d,%d,%d}" % (a.role, a.mode, eb, nl, a.comp, a.ofs)

MEMK = {'ld': 1, 'dup': 2, 'ldl': 3, 'st': 4, 'stl': 5}

def fntype(o):
    return '%s (*)(%s)' % (o.rctype, ', '.join(a.ctype for a in o.args))

def emit_op(o, out, used):
    """o: spec.Op (reference semantics) or spec.Law (lhs/rhs over intrinsics)"""
    idn = re.sub(r'\W', '_', o.name)
    law = getattr(o, 'lhs', None) is not None
    # --- call
    b = ['static void W_%s(const uint8_t* const* args,int n,uint8_t* out){(void)args;(void)n;(void)out;' % idn]
    names = []
    for k, a in enumerate(o.args):
        v = 'ABCDE'[k]
        if a.role in 'vs':
            b.append('%s %s; memcpy(&%s,args[%d],sizeof %s);' % (a.ctype, v, v, k, v))
        elif a.role in 'pw':
            b.append('%s %s=(%s)args[%d];' % (a.ctype, v, a.ctype, k))
        names.append('n' if a.role == 'i' else v)
    decl = ''.join(b[1:])
    need = []
    def sub(expr):
        def f(m):
            if m.group(1) not in need: need.append(m.group(1))
            return 'p_%s(' % m.group(1)
        return re.sub(r'\b(v[a-z0-9]+(?:_[a-z0-9]+)+)\(', f, expr)
    if law:
        body = '%s r=%s; memcpy(out,&r,sizeof r);' % (o.rctype, sub(o.lhs))
    else:
        need.append(o.name)
        call = 'p_%s(%s)' % (o.name, ','.join(names))
        body = call + ';' if o.ret is None else '%s r=%s; memcpy(out,&r,sizeof r);' % (o.rctype, call)
    out.append(b[0] + decl + body + '}')
    # --- reference
    r = ['static void R_%s(const uint8_t* const* args,int n,uint8_t* out){(void)args;(void)n;(void)out;' % idn]
    if law:
        r.append(decl + '%s r=%s; memcpy(out,&r,sizeof r);' % (o.rctype, sub(o.rhs)))
    elif o.ref:
        j = 0
        for k, a in enumerate(o.args):
            if a.role == 'i': continue
            r.append('const %s* a%d=(const %s*)args[%d];(void)a%d;' % (spec.ety(a.s), j, spec.ety(a.s), k, j)); j += 1
        s, L = o.retinfo
        small = all(spec.sz(a.s) <= 16 for a in o.args if a.role != 'i') and spec.sz(s) <= 32
        if small and s[0] != 'f': r.append('typedef int64_t X;')
        r.append('%s* o=(%s*)out; const int L=%d;(void)L; %s' % (spec.ety(s), spec.ety(s), L, o.ref))
    out.append(''.join(r) + '}')
    for nm in need: used[nm] = 1
    out.append('static void** const N_%s[]={%s,0};' % (idn, ','.join('(void**)&p_%s' % nm for nm in need)))
    imm = [(k, a) for k, a in enumerate(o.args) if a.role == 'i']
    ia = (imm[0][0], imm[0][1].lo, imm[0][1].hi) if imm else (-1, 0, 0)
    ri = o.retinfo
    mem = '{0,0,0,0}'
    if o.mem:
        vs = [a for a in o.args if a.role == 'v']
        s = [a for a in o.args if a.role in 'pw'][0].s
        lanes = (vs[0].nl if vs else ri[1]) // o.mem[1]
        mem = '{%d,%d,%d,%d}' % (MEMK[o.mem[0]], o.mem[1], lanes, spec.sz(s) // 8)
    return '{"%s","%s",%d,{%s},%s,%d,%d,%d,%d,%d,{%s},%s,W_%s,%s,N_%s}' % (
        o.name, o.prop, len(o.args), ','.join(arginfo(a) for a in o.args),
        "%d,%d,'%s'" % (spec.sz(ri[0]) // 8, ri[1], ri[0][0]) if ri else "0,0,0",
        1 if o.nan else 0, ia[0], ia[1], ia[2], len(o.comps), ','.join('"%s"' % c for c in o.comps), mem, idn,
        ('R_' + idn) if (law or o.ref) else '0', idn)

def main():
    outdir, nsh = sys.argv[1], int(sys.argv[2])
    ops = []
    for sel in sys.argv[3:]:
        if sel == 'all': ops += spec.OPS
        elif sel.startswith('laws:'):
            import laws
            ops += laws.LAWS[sel[5:]]
        else: ops += [o for o in spec.OPS if o.prop == sel]
    os.makedirs(outdir, exist_ok=True)
    nsh = max(1, min(nsh, (len(ops) + 9) // 10))
    for sh in range(nsh):
        part = ops[sh::nsh]
        body, used, regs = [], {}, []
        for o in part: regs.append(emit_op(o, body, used))
        t = ['#include "core.hpp"']
        for nm in used: t.append('static %s (*p_%s)(%s);' % (spec.BYNAME[nm].rctype, nm, ', '.join(a.ctype for a in spec.BYNAME[nm].args)))
        t += body
        t.append('void register_%d(){' % sh)
        for nm in used: t.append('g_syms.push_back(Sym{"%s",(void**)&p_%s});' % (nm, nm))
        t.append('static const Op T[]={' + ',\n'.join(regs) + '};')
        t.append('g_ops.insert(g_ops.end(),T,T+sizeof T/sizeof T[0]);}')
        open(os.path.join(outdir, 'ops_%d.cpp' % sh), 'w').write('\n'.join(t) + '\n')
    t = ['#include "core.hpp"', 'std::vector<Op> g_ops; std::vector<Sym> g_syms;']
    t += ['void register_%d();' % i for i in range(nsh)]
    t.append('void register_all(){' + ''.join('register_%d();' % i for i in range(nsh)) + '}')
    open(os.path.join(outdir, 'ops_reg.cpp'), 'w').write('\n'.join(t) + '\n')

main()
