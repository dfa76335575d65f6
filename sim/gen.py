"""Generates the wrapper translation units for one build configuration."""
import os, json, itertools
from ops import OPS, CT, ALL, INT, FP
SZ = dict(i8=1, u8=1, i16=2, u16=2, i32=4, u32=4, i64=8, u64=8, f32=4, f64=8)
CONFIGS = dict(sse2=['-msse2'], sse42=['-msse4.2'], avx=['-mavx'], avx2=['-mavx2', '-mfma'], avx512=['-mavx2', '-mfma', '-mavx512f', '-mavx512cd', '-mavx512vl', '-mavx512bw', '-mavx512dq'])
# the same with other build options: p = NaN propagation without error handling, n = neither, d = assertions enabled
VARIANTS = dict(p=['-UDPM_HANDLE_ERRORS'], n=['-UDPM_HANDLE_ERRORS', '-UDPM_PROPAGATE_NAN'], d=['-UNDEBUG'])
def base(c): return c.split('+')[0]
def flags(c): return CONFIGS[base(c)], VARIANTS[c.split('+')[1]] if '+' in c else []
A16, A32 = 'dpm::simd_abi::ext::aligned_vector<%d, 16>', 'dpm::simd_abi::ext::aligned_vector<%d, 32>'
FS, PK = 'dpm::simd_abi::fixed_size<%d>', 'dpm::simd_abi::ext::packed_buffer<%d>'
# lanes beyond whole native vectors, in the second, fourth and last shape: together the types of a size leave every number of padding lanes
REST = dict(i8=(5, 9, 15), u8=(1, 23, 15), i16=(3, 7, 1), u16=(1, 10, 6), i32=(2, 5, 1), u32=(3, 1, 3), f32=(1, 3, 2), i64=(1, 2, 1), u64=(1, 1, 1), f64=(1, 3, 1))
def tails(t):
    """Further shapes, one for every possible number of lanes in the last native vector (shared out among the element types of a size)."""
    L = 16 // SZ[t]; g = [x for x in ALL if SZ[x] == SZ[t] and (x in FP) == (t in FP)]; k = g.index(t); done = {s[0] for s in shapes(t)}
    r = [('a16', A16, L + i) for i in range(1, L)] + [('a32', A32, 2 * L + i) for i in range(1, 2 * L)]
    return [(f'{t}x{n}{a}', a, ab % n, n) for a, ab, n in r if n % len(g) == k and f'{t}x{n}{a}' not in done]
def shapes(t):
    L = 16 // SZ[t]; q, h, b = REST[t]
    r = [('a16', A16, L), ('a16', A16, L + q), ('a32', A32, 2 * L), ('a32', A32, 2 * L + h), ('fs', FS, 3), ('pk', PK, 3), ('a16', A16, min(63, 4 * L + b))]
    return [(f'{t}x{n}{k}', k, ab % n, n) for k, ab, n in r]
def toks(s):
    r = []; i = 0
    while i < len(s):
        if s[i] == 'X':
            r.append(s[i:i + 4] if s[i + 1:i + 4] in CT else s[i:i + 3]); i += len(r[-1])
        else: r.append(s[i]); i += 1
    return r
def sig(o):
    a, b = o['sig'].split(':'); return toks(a), toks(b)
OPID = {o['name']: k for k, o in enumerate(OPS)}
def shapes_unit(types=ALL, dense=False):
    c = ['#include "wrap.hpp"', 'namespace sim { EntryNode *entries; ShapeNode *shapes; MemNode *mem_entries; }', 'namespace wrap {']
    for t in types:
        for nm, k, ab, n in shapes(t) + (tails(t) if dense else []):
            c.append(f'template<> const Shape *shape<{CT[t]}, {n}, {ab}>() {{ static ShapeNode s = [] {{ ShapeNode x{{Shape{{"{nm}", "{k}", {t}, {n}, io_of<dpm::simd<{CT[t]}, {ab}>>::get(), io_of<dpm::simd_mask<{CT[t]}, {ab}>>::get(), io_of<dpm::simd<int, {ab}>>::get()}}, nullptr}}; return x; }}(); static bool once = (s.next = shapes, shapes = &s, true); (void)once; return &s.s; }}')
    c.append('}')
    return '\n'.join(c)
def op_struct(o):
    outs, ins = sig(o); nm = 'W_' + o['name']
    b = [f'template<class T, size_t N, class ABI> struct {nm} {{ using V = dpm::simd<T, ABI>; using M = dpm::simd_mask<T, ABI>; using IV = dpm::simd<int, ABI>;',
         ' static void run(const void *const *in, void *const *out) {']
    vn, mn = iter('abc'), iter('mno')
    for k, x in enumerate(ins):
        if x == 'V': b.append(f'  auto {next(vn)} = ld<V>(in[{k}]);')
        elif x == 'M': b.append(f'  auto {next(mn)} = ld<M>(in[{k}]);')
        elif x == 'I': b.append(f'  auto e = ld<IV>(in[{k}]);')
        elif x == 'S': b.append(f'  auto s = ld<T>(in[{k}]);')
    e = o['v']
    def rt(x):
        return dict(V='V', M='M', I='IV', S='T', B='bool', Z='size_t', L='dpm::simd<long, ABI>').get(x) or f'dpm::simd<{CT[x[1:]]}, ABI>'
    if len(outs) == 2:
        b.append(f'  auto r = {e}; st<{rt(outs[0])}>(out[0], r.first); st<{rt(outs[1])}>(out[1], r.second); }}')
    else:
        t = rt(outs[0])
        b.append(f'  auto r = {e}; st(out[0], r); }}' if outs[0][0] in 'VML' or outs[0][0] == 'X' or outs[0] == 'I' else f'  {t} r = static_cast<{t}>({e}); st<{t}>(out[0], r); }}')
    ios = []
    for x in outs:
        if x == 'S': ios.append('io_s<T>::get()')
        elif x == 'L': ios.append('io_of<std::decay_t<decltype(%s)>>::get()' % 'std::declval<LV>()')
        else: ios.append(f'io_of<{rt(x)}>::get()')
    ios = [x.replace('io_of<std::decay_t<decltype(std::declval<LV>())>>', 'io_of<dpm::simd<long, ABI>>') for x in ios]
    b.append(f' static Entry entry() {{ return Entry{{{OPID[o["name"]]}, shape<T, N, ABI>(), &run, {{{", ".join(ios)}}}}}; }} }};')
    return '\n'.join(b)
def ops_unit(items):
    """items: list of (op, type, (shape name, kind, abi, n))"""
    c = ['#include "wrap.hpp"', 'namespace wrap {']
    for t in sorted({(t, s) for _, t, s in items}):
        c.append(f'template<> const Shape *shape<{CT[t[0]]}, {t[1][3]}, {t[1][2]}>();')
    seen = set()
    for o, t, s in items:
        if o['name'] not in seen: c.append(op_struct(o)); seen.add(o['name'])
    # registered before anything else, in a section of its own: the rest of .init_array belongs to the library (see buildlib, life)
    c.append(f'alignas(EntryNode) static unsigned char nodes[{len(items)} * sizeof(EntryNode)];')
    c.append('__attribute__((constructor(300))) static void reg() { EntryNode *n = reinterpret_cast<EntryNode *>(nodes);')
    for o, t, s in items: c.append(f'n->e = W_{o["name"]}<{CT[t]}, {s[3]}, {s[2]}>::entry(); n->next = entries; entries = n++;')
    c.append('}')
    c.append('}')
    return '\n'.join(c)
def ops_meta():
    c = ['// generated', '#include "engine.hpp"', 'namespace sim { const OpMeta op_meta[] = {']
    for o in OPS:
        outs, ins = sig(o)
        c.append('{"%s", "%s", "%s", dom_%s, cmp_%s},' % (o['name'], ''.join(x[0] for x in outs), ''.join(x[0] for x in ins), o['dom'], o['cmp']))
    c.append(f'}}; const int op_count = {len(OPS)}; }}')
    return '\n'.join(c)
def ref_unit(t):
    """Array reference model of every operation for lane type t (plain scalar C++, no library code)."""
    c = ['// generated', '#include "ref.hpp"', 'namespace ref {', f'using T = {CT[t]};', 'using U = WT<T>::u; using W = WT<T>::w;']
    reg = []
    for o in OPS:
        if t not in o['types']: continue
        outs, ins = sig(o); red = outs[0] in ('S', 'B', 'Z')
        def lt(x): return dict(V='T', M='bool', I='int', S='T', B='bool', Z='size_t', L='long').get(x) or CT[x[1:]]
        s = o['s']
        if '|' in s and s.count('|') == 1 and ' | ' not in s:
            s = s.split('|')[1 if t in FP else 0]
        f = [f'static void r_{o["name"]}(int nl_, const void *const *in, void *const *out) {{ const size_t N = nl_; (void)N;']
        vn, mn = iter('abc'), iter('mno'); names = []
        for k, x in enumerate(ins):
            n = next(vn) if x == 'V' else next(mn) if x == 'M' else 'e' if x == 'I' else 's'
            names.append((n, x)); f.append(f' auto {n}_ = static_cast<const {lt(x)} *>(in[{k}]);')
        for k, x in enumerate(outs): f.append(f' auto o{k} = static_cast<{lt(x)} *>(out[{k}]);')
        if red:
            for n, x in names: f.append(f' auto {n} = {n}_{"[0]" if x == "S" else ""}; (void){n};')
            f.append(f' {lt(outs[0])} r; {{ {s} }} o0[0] = r; }}')
        else:
            f.append(' for (size_t i = 0; i < N; ++i) {')
            for n, x in names: f.append(f'  {lt(x)} {n} = {n}_[{"0" if x == "S" else "i"}]; (void){n};')
            if len(outs) == 2: f.append(f'  auto w = {s}; o0[i] = ({lt(outs[0])})w.first; o1[i] = ({lt(outs[1])})w.second; }} }}')
            else: f.append(f'  o0[i] = ({lt(outs[0])})({s}); }} }}')
        c.append('\n'.join(f))
        reg.append(f'{{{OPID[o["name"]]}, &r_{o["name"]}}}')
    c.append('static const RefReg regs[] = {' + ', '.join(reg) + '}; static RefInit init_(sim::%s, regs, sizeof(regs) / sizeof(regs[0])); }' % t)
    return '\n'.join(c)
