"""Wrappers that hand the simulator's callbacks to the library: generators and caller-supplied reductions."""
from gen import CT, shapes
def items(types, idx=None):
    return [(t, s, v) for t in types for k, s in enumerate(shapes(t)) if idx is None or k in idx for v in ('gen', 'genr', 'genm', 'red', 'redp', 'redf', 'redv')]
BODY = dict(
    gen='::new (out[0]) V([](auto i) { T v; sim_gen(static_cast<size_t>(i), &v); return v; });',
    genr='G g{in[1]}; ::new (out[0]) V(g);',
    genm='::new (out[0]) M([](auto i) { unsigned char v; sim_gen(static_cast<size_t>(i), &v); return v != 0; });',
    red='T r = dpm::reduce(v, [](T a, T b) { T r; sim_red(&a, &b, &r); return r; }); st<T>(out[0], r);',
    redp='T r = dpm::reduce(v, &fn<T>); st<T>(out[0], r);',
    redf='Op<T> op{in[1]}; T r = dpm::reduce(v, op); st<T>(out[0], r);',
    redv='using S = dpm::simd<T, dpm::simd_abi::scalar>; T r = dpm::reduce(v, [](S a, S b) { T x = a[0], y = b[0], r; sim_red(&x, &y, &r); return S(r); }); st<T>(out[0], r);')
def unit(its):
    c = ['#include "wrap.hpp"', '#include "cb.hpp"', '#include <new>', 'namespace wrap {',
         'template<class T> T fn(T a, T b) { T r; sim_red(&a, &b, &r); return r; }',
         '// stateful callables: the state must survive being copied around',
         'template<class T> struct Op { const void *key; T operator()(const T &a, const T &b) const { T r; sim_key(key); sim_red(&a, &b, &r); return r; } };',
         'template<class T> struct GenOf { const void *key; T operator()(size_t i) { T v; sim_key(key); sim_gen(i, &v); return v; } };']
    for t, s in sorted({(t, s) for t, s, *_ in its}): c.append(f'template<> const Shape *shape<{CT[t]}, {s[3]}, {s[2]}>();')
    for v in sorted({i[2] for i in its}):
        b = BODY[v]
        c.append(f'template<class T, class ABI> void y_{v}(const void *const *in, void *const *out) {{ using V = dpm::simd<T, ABI>; using M [[maybe_unused]] = typename V::mask_type; using G [[maybe_unused]] = GenOf<T>;'
                 + (' const V &v = *static_cast<const V *>(in[0]); try { ' + b + ' } catch (const CbError &e) { *static_cast<std::uint64_t *>(out[1]) = e.id; } }' if v[:3] == 'red' else ' ' + b + ' }'))
    c.append('struct CbR { CbR(CbNode *n) { n->next = cb_entries; cb_entries = n; } };')
    for k, (t, s, v) in enumerate(its):
        c.append(f'static CbNode n{k}{{CbEntry{{"{v}", shape<{CT[t]}, {s[3]}, {s[2]}>(), {int(v[:3] == "red")}, {int(v == "genm")}, {int(v in ("redf", "genr"))}, &y_{v}<{CT[t]}, {s[2]}>}}, nullptr}}; static CbR r{k}{{&n{k}}};')
    c.append('}')
    return '\n'.join(c)
