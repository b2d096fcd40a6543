// Call contexts (operand contents, memory contents, immediates) and library-state observation shared by the
// history (C19) and schedule (C20) explorers.
#pragma once
#include "core.hpp"
#include <algorithm>
#include <dlfcn.h>
#include <link.h>

struct Case { uint8_t a[5][64]; int n; };                 // a[i]: operand bytes, or memory content behind a pointer operand
struct Result { uint8_t b[128]; };                        // returned value, then nothing; for stores the memory around the operand

inline int mem_arg(const Op& op) { for (int i = 0; i < op.nargs; i++) if (op.a[i].role == 'p' || op.a[i].role == 'w') return i; return -1; }
inline int mem_bytes(const Op& op) { int k = op.mem.kind, e = op.mem.eb; return k == 2 ? e : k == 3 || k == 5 ? op.mem.n * e : op.mem.n * op.mem.lanes * e; }
// element (address, width, component) list of everything a call reads
struct Elem { uint8_t* p; int eb; int comp; };
inline std::vector<Elem> elems(const Op& op, Case& c) {
    std::vector<Elem> r;
    for (int i = 0; i < op.nargs; i++) {
        const ArgInfo& a = op.a[i];
        if (a.role == 'v' || a.role == 's') for (int l = 0; l < a.lanes; l++) r.push_back(Elem{c.a[i] + l * a.eb, a.eb, op.mem.kind ? 0 : a.mode == 'P' ? a.comp + l % 2 : a.comp});
        if (a.role == 'p') for (int l = 0; l < mem_bytes(op) / op.mem.eb; l++) r.push_back(Elem{c.a[i] + l * op.mem.eb, op.mem.eb, 0});
    }
    return r;
}
inline void put_elem(const Elem& e, uint64_t v) { memcpy(e.p, &v, e.eb); }
inline const Dom& edom(const Op& op, const Elem& e, size_t n) { return dom(op.comps[std::min(e.comp, op.ncomp - 1)], n); }
// the first cases are the most telling; `ones` is the number of one-element variations of case 0
inline std::vector<Case> make_cases(const Op& op, int specials) {
    std::vector<Case> out;
    const int lo = op.immArg >= 0 ? op.immLo : 0, hi = op.immArg >= 0 ? op.immHi : 0;
    auto bg = [&](int k, int n) {
        Case c; memset(&c, 0, sizeof c); c.n = n;
        auto es = elems(op, c);
        for (size_t e = 0; e < es.size(); e++) {
            const Dom& d = edom(op, es[e], 64);
            put_elem(es[e], k == 0 ? d[(e * 5 + 11) % 64] : k == 1 ? 0 : k == 2 ? ~0ull : e + 1);
        }
        return c;
    };
    const int mid = (lo + hi + 1) / 2;
    for (int k : {0, 3, 1, 2}) out.push_back(bg(k, mid));
    { Case c = bg(0, mid); auto es = elems(op, c);
      for (size_t e = 0; e < es.size(); e++) { Case v = c; auto ev = elems(op, v); const Dom& d = edom(op, ev[e], 64); uint64_t old = 0; memcpy(&old, es[e].p, es[e].eb); put_elem(ev[e], d[3] == old ? d[4] : d[3]); out.push_back(v); } }
    if (op.immArg >= 0) for (int n = lo; n <= hi; n++) for (int k : {0, 3, 2}) if (n != mid) out.push_back(bg(k, n));
    for (int j = 0; j < specials; j++) {
        Case c = bg(0, lo + j % (hi - lo + 1)); auto es = elems(op, c);
        for (size_t e = 0; e < es.size(); e++) { const Dom& d = edom(op, es[e], 256); put_elem(es[e], d[(j * 3 + (e < es.size() / 2 ? 0 : j) + e) % d.size()]); }
        out.push_back(c);
    }
    return out;
}
// ---- one call; arguments are copied to `arena` first (fixed place, so pointer operands repeat), stores return the memory
struct Arena { alignas(64) uint8_t v[5][192]; };
struct CallOut { Result r; bool input_changed; };
inline void run_case(const Op& op, const Case& c, Arena& ar, Result& r, bool* input_changed = 0) {
    const uint8_t* p[5];
    const int m = mem_arg(op);
    for (int i = 0; i < op.nargs; i++) {
        p[i] = ar.v[i] + (i == m ? 64 : 0);
        if (i == m) memset(ar.v[i], 0xC3, 192);
        memcpy((void*)p[i], c.a[i], 64);
        if (i == m && op.a[i].role == 'w') memset((void*)p[i], 0xC3, 64);
    }
    memset(r.b, 0, sizeof r.b);
    alignas(16) uint8_t out[64] = {0};
    op.call(p, c.n, out);
    memcpy(r.b, out, 64);
    if (m >= 0 && op.a[m].role == 'w') memcpy(r.b, p[m] - 32, 128);
    else if (m >= 0 && input_changed) *input_changed = memcmp(p[m], c.a[m], 64) != 0;
}
// ---- writable memory of the library: its data segments and its thread-local block
struct LibState {
    struct R { const uint8_t* p; size_t n; };
    std::vector<R> seg; std::string path;
    static int cb(dl_phdr_info* i, size_t sz, void* d) {
        LibState* s = (LibState*)d;
        if (!i->dlpi_name || s->path != i->dlpi_name) return 0;
        uintptr_t rlo = 0, rhi = 0;
        for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) { rlo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; rhi = (rlo + i->dlpi_phdr[k].p_memsz) & ~4095ull; }
        for (int k = 0; k < i->dlpi_phnum; k++) {
            const auto& h = i->dlpi_phdr[k];
            if (h.p_type == PT_LOAD && (h.p_flags & PF_W)) {
                uintptr_t a = i->dlpi_addr + h.p_vaddr, b = a + h.p_memsz;
                if (rhi > a && rlo <= a) a = std::min(rhi, b);
                if (a < b) s->seg.push_back(R{(const uint8_t*)a, b - a});
            }
            if (h.p_type == PT_TLS && i->dlpi_tls_data) s->seg.push_back(R{(const uint8_t*)i->dlpi_tls_data, h.p_memsz});
        }
        return 1;
    }
    void locate(const std::string& p) { path = p; seg.clear(); dl_iterate_phdr(cb, this); }   // again per thread for its TLS
    size_t bytes() const { size_t n = 0; for (auto& s : seg) n += s.n; return n; }
    uint64_t hash() const {
        uint64_t h = 0xcbf29ce484222325ull;
        for (auto& s : seg) {
            size_t i = 0;
            for (; i + 8 <= s.n; i += 8) { uint64_t v; memcpy(&v, s.p + i, 8); h = (h ^ v) * 0xff51afd7ed558ccdull; h ^= h >> 29; }
            for (; i < s.n; i++) { h = (h ^ s.p[i]) * 0x100000001b3ull; }
        }
        return h;
    }
    std::vector<uint8_t> save() const { std::vector<uint8_t> v; for (auto& s : seg) v.insert(v.end(), s.p, s.p + s.n); return v; }
    void restore(const std::vector<uint8_t>& v) const { size_t k = 0; for (auto& s : seg) { memcpy((void*)s.p, v.data() + k, s.n); k += s.n; } }
    bool contains(const void* p) const { for (auto& s : seg) if ((const uint8_t*)p >= s.p && (const uint8_t*)p < s.p + s.n) return true; return false; }
};
inline uint32_t fpmode() {   // control bits only: rounding, flush modes, exception masks
    uint32_t m; __asm__ volatile("stmxcsr %0" : "=m"(m));
    uint16_t w; __asm__ volatile("fnstcw %0" : "=m"(w));
    return (m & 0xffc0) | (uint32_t)w << 16;
}
inline std::string hexn(const uint8_t* p, int n) { std::string s; char t[4]; for (int i = 0; i < n; i++) { snprintf(t, 4, "%02x", p[i]); s += t; } return s; }
inline std::string case_json(const Op& op, const Case& c) {
    std::string s = "[";
    for (int i = 0; i < op.nargs; i++) {
        if (i) s += ",";
        const ArgInfo& a = op.a[i];
        if (a.role == 'i') s += std::to_string(c.n);
        else if (a.role == 'w') s += "\"memory\"";
        else s += "\"" + hexn(c.a[i], a.role == 'p' ? mem_bytes(op) : arg_bytes(a)) + "\"";
    }
    return s + "]";
}
