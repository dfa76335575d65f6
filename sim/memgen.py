"""Wrappers for every memory transfer of the library: variant x element type in memory x alignment tag x shape."""
from gen import CT, INT, FP, shapes, SZ
OTHER = dict(i8=['u8', 'i16'], u8=['i8', 'i32'], i16=['u16', 'i8'], u16=['i16', 'f32'], i32=['f32', 'i16'], u32=['f32', 'u64'], i64=['f64', 'i32'], u64=['i64', 'f32'], f32=['i32', 'u32', 'f64'], f64=['i64', 'u64', 'f32'])
FLAG = dict(e='dpm::element_aligned_tag', v='dpm::vector_aligned_tag', o64='dpm::overaligned_tag<64>', o16='dpm::overaligned_tag<16>')
def items(types, masked, idx=None):
    r = []
    for t in types:
        for k, s in enumerate(shapes(t)):
            if idx is not None and k not in idx: continue
            for obj in 'vm':
                for m in ([t] + OTHER[t]) if obj == 'v' else ['tb', 'u8']:
                    for f in FLAG:
                        for v in (['ldm', 'ldmc', 'stm'] if masked else ['ld', 'ldc', 'st'] + (['ldi', 'sti'] if m in (t, 'tb') and f in 'ev' else [])):
                            r.append((t, s, obj, m, f, v))
    return r
def ct(x): return 'bool' if x == 'tb' else CT[x]
BODY = dict(ld='r.copy_from(static_cast<const U *>(mem), F{});', ldc='::new (out[1]) V(static_cast<const U *>(mem), F{});', st='const V &c = r; c.copy_to(mem, F{});',
            ldi='std::span<const U> q(mem, V::size()); r.copy_from(q.begin(), F{});', sti='std::span<U> q(mem, V::size()); const V &c = r; c.copy_to(q.begin(), F{});',
            ldm='r.copy_from(static_cast<const U *>(mem), m, F{});', ldmc='::new (out[1]) V(static_cast<const U *>(mem), m, F{});', stm='const V &c = r; c.copy_to(mem, m, F{});')
def unit(its):
    c = ['#include "wrap.hpp"', '#include <new>', '#include <span>', 'namespace wrap {']
    for t, s in sorted({(t, s) for t, s, *_ in its}): c.append(f'template<> const Shape *shape<{CT[t]}, {s[3]}, {s[2]}>();')
    for v in sorted({i[5] for i in its}):
        c.append(f'template<class V, class U, class F> void x_{v}(const void *const *in, void *const *out) {{ using M = typename V::mask_type; [[maybe_unused]] auto *mem = static_cast<U *>(out[0]); [[maybe_unused]] V &r = *static_cast<V *>(out[1]); [[maybe_unused]] const M &m = *static_cast<const M *>(in[0]); {BODY[v]} }}')
    c += ['struct MemR { MemR(MemNode *n) { n->next = mem_entries; mem_entries = n; } };',
          'template<class F, class V, class U> constexpr int al() { if (std::is_same_v<F, dpm::element_aligned_tag>) return int(alignof(U)); if (std::is_same_v<F, dpm::vector_aligned_tag>) return int(std::max(alignof(V), alignof(U))); return int(std::max<size_t>(dpm::detail::overaligned_tag_value_v<F>, alignof(U))); }']
    for k, (t, s, obj, m, f, v) in enumerate(its):
        V = f'dpm::simd{"_mask" if obj == "m" else ""}<{CT[t]}, {s[2]}>'; U = ct(m); b = lambda x: 'true' if x else 'false'
        c.append(f'static MemNode n{k}{{MemEntry{{"{obj}.{v}.{m}.{f}", shape<{CT[t]}, {s[3]}, {s[2]}>(), {b(v[:2] == "st")}, {b("m" in v)}, {b(obj == "m")}, {b(v.endswith("c"))}, {m}, al<{FLAG[f]}, {V}, {U}>(), &x_{v}<{V}, {U}, {FLAG[f]}>}}, nullptr}}; static MemR r{k}{{&n{k}}};')
    c.append('}')
    return '\n'.join(c)
