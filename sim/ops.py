"""Operation table: every public lane-wise operation of the library the simulated programs may execute.

An entry: name, signature "OUT:IN...", type classes, vector expression, scalar (per lane) expression.
Letters: V simd<T>, M simd_mask<T>, I simd<int> of the same width, S scalar T, B bool, Z size_t, L simd<long long>.
Names: inputs V are a,b,c; M are m,n; I is e; S is s.  In the scalar expression they are lane values;
for reductions (OUT in S,B,Z) the scalar expression is a statement block over arrays a[],m[] and N, setting r.
"""
INT = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64']
SINT = ['i8', 'i16', 'i32', 'i64']
FP = ['f32', 'f64']
ALL = INT + FP
CT = dict(i8='std::int8_t', u8='std::uint8_t', i16='std::int16_t', u16='std::uint16_t', i32='std::int32_t',
          u32='std::uint32_t', i64='std::int64_t', u64='std::uint64_t', f32='float', f64='double')

OPS = []
def op(name, sig, types, vexpr, sexpr, cmp='bits', dom='any'):
    OPS.append(dict(name=name, sig=sig, types=types, v=vexpr, s=sexpr, cmp=cmp, dom=dom))

# arithmetic
op('neg', 'V:V', ALL, '-a', 'T(W(0) - W(a))|-a')
op('pos', 'V:V', ALL, '+a', 'a')
op('add', 'V:VV', ALL, 'a + b', 'T(W(a) + W(b))|a + b')
op('sub', 'V:VV', ALL, 'a - b', 'T(W(a) - W(b))|a - b')
op('mul', 'V:VV', ALL, 'a * b', 'T(W(a) * W(b))|a * b')
op('div', 'V:VV', FP, 'a / b', 'a / b')
op('adds', 'V:VS', ALL, 'a + s', 'T(W(a) + W(s))|a + s')
op('subs', 'V:VS', ALL, 'a - s', 'T(W(a) - W(s))|a - s')
op('muls', 'V:VS', ALL, 'a * s', 'T(W(a) * W(s))|a * s')
op('divs', 'V:VS', FP, 'a / s', 'a / s')
op('idiv', 'V:VV', INT, 'a / b', 'T(a / b)', dom='idiv')
op('imod', 'V:VV', INT, 'a % b', 'T(a % b)', dom='idiv')
op('inc', 'V:V', ALL, '++a', 'T(W(a) + W(1))|a + T(1)')
op('dec', 'V:V', ALL, '--a', 'T(W(a) - W(1))|a - T(1)')
op('pinc', 'V:V', ALL, '[&]{ auto t = a; auto r = t++; return r + (t - r); }()', 'T(W(a) + W(1))|a + ((a + T(1)) - a)')
op('addeq', 'V:VV', ALL, '[&]{ auto t = a; t += b; return t; }()', 'T(W(a) + W(b))|a + b')
op('subeq', 'V:VV', ALL, '[&]{ auto t = a; t -= b; return t; }()', 'T(W(a) - W(b))|a - b')
op('muleq', 'V:VV', ALL, '[&]{ auto t = a; t *= b; return t; }()', 'T(W(a) * W(b))|a * b')
# bitwise
op('and', 'V:VV', INT, 'a & b', 'T(a & b)')
op('or', 'V:VV', INT, 'a | b', 'T(a | b)')
op('xor', 'V:VV', INT, 'a ^ b', 'T(a ^ b)')
op('not', 'V:V', INT, '~a', 'T(~a)')
op('ands', 'V:VS', INT, 'a & s', 'T(a & s)')
op('ors', 'V:VS', INT, 'a | s', 'T(a | s)')
op('xors', 'V:VS', INT, 'a ^ s', 'T(a ^ s)')
op('lnot', 'M:V', INT, '!a', '!a')
# shifts
op('shlv', 'V:VV', INT, 'a << b', 'T(U(a) << b)', dom='shift')
op('shrv', 'V:VV', INT, 'a >> b', 'T(a >> b)', dom='shift')
op('shls', 'V:VS', INT, 'a << s', 'T(U(a) << s)', dom='shift')
op('shrs', 'V:VS', INT, 'a >> s', 'T(a >> s)', dom='shift')
op('shleq', 'V:VV', INT, '[&]{ auto t = a; t <<= b; return t; }()', 'T(U(a) << b)', dom='shift')
op('shreq', 'V:VV', INT, '[&]{ auto t = a; t >>= b; return t; }()', 'T(a >> b)', dom='shift')
for k in (1, 5):
    op('lsl%d' % k, 'V:V', INT, 'dpm::ext::lsl<%d>(a)' % k, 'T(U(a) << %d)' % k)
    op('lsr%d' % k, 'V:V', INT, 'dpm::ext::lsr<%d>(a)' % k, 'T(U(a) >> %d)' % k)
    op('asl%d' % k, 'V:V', SINT, 'dpm::ext::asl<%d>(a)' % k, 'T(U(a) << %d)' % k)
    op('asr%d' % k, 'V:V', SINT, 'dpm::ext::asr<%d>(a)' % k, 'T(a >> %d)' % k)
# comparisons
for n, o in (('eq', '=='), ('ne', '!='), ('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>=')):
    op(n, 'M:VV', ALL, 'a %s b' % o, 'a %s b' % o)
# min/max
op('min', 'V:VV', ALL, 'dpm::min(a, b)', 'std::min(a, b)', cmp='zs', dom='nonan')
op('max', 'V:VV', ALL, 'dpm::max(a, b)', 'std::max(a, b)', cmp='zs', dom='nonan')
op('mins', 'V:VS', ALL, 'dpm::min(a, s)', 'std::min(a, s)', cmp='zs', dom='nonan')
op('maxs', 'V:VS', ALL, 'dpm::max(a, s)', 'std::max(a, s)', cmp='zs', dom='nonan')
op('minmax', 'VV:VV', ALL, 'dpm::minmax(a, b)', 'P2(std::min(a, b), std::max(a, b))', cmp='zs', dom='nonan')
op('clamp', 'V:VVV', ALL, 'dpm::clamp(a, dpm::min(b, c), dpm::max(b, c))', 'std::clamp(a, std::min(b, c), std::max(b, c))', cmp='zs', dom='nonan')
op('blend', 'V:MVV', ALL, 'dpm::blend(m, a, b)', 'm ? a : b')
op('blendm', 'M:MMM', ALL, 'dpm::blend(m, n, o)', 'm ? n : o')
# masks
op('mand', 'M:MM', ALL, 'm & n', 'm & n')
op('mor', 'M:MM', ALL, 'm | n', 'm | n')
op('mxor', 'M:MM', ALL, 'm ^ n', 'm ^ n')
op('mnot', 'M:M', ALL, '~m', '!m')
op('mlnot', 'M:M', ALL, '!m', '!m')
op('mland', 'M:MM', ALL, 'm && n', 'm && n')
op('mlor', 'M:MM', ALL, 'm || n', 'm || n')
op('meq', 'M:MM', ALL, 'm == n', 'm == n')
op('mne', 'M:MM', ALL, 'm != n', 'm != n')
op('all_of', 'B:M', ALL, 'dpm::all_of(m)', 'r = true; for (size_t i = 0; i < N; ++i) r = r && m[i];')
op('any_of', 'B:M', ALL, 'dpm::any_of(m)', 'r = false; for (size_t i = 0; i < N; ++i) r = r || m[i];')
op('none_of', 'B:M', ALL, 'dpm::none_of(m)', 'r = true; for (size_t i = 0; i < N; ++i) r = r && !m[i];')
op('some_of', 'B:M', ALL, 'dpm::some_of(m)', 'size_t k = 0; for (size_t i = 0; i < N; ++i) k += m[i]; r = k > 0 && k < N;')
op('count', 'Z:M', ALL, 'dpm::reduce_count(m)', 'r = 0; for (size_t i = 0; i < N; ++i) r += m[i];')
op('minidx', 'Z:M', ALL, 'dpm::reduce_min_index(m)', 'r = N; for (size_t i = N; i-- > 0;) if (m[i]) r = i;', dom='anymask')
op('maxidx', 'Z:M', ALL, 'dpm::reduce_max_index(m)', 'r = N; for (size_t i = 0; i < N; ++i) if (m[i]) r = i;', dom='anymask')
# reductions
op('hadd', 'S:V', INT, 'dpm::reduce(a)', 'r = 0; for (size_t i = 0; i < N; ++i) r = T(W(r) + W(a[i]));')
op('hmul', 'S:V', INT, 'dpm::reduce(a, std::multiplies<>{})', 'r = 1; for (size_t i = 0; i < N; ++i) r = T(W(r) * W(a[i]));')
op('hand', 'S:V', INT, 'dpm::reduce(a, std::bit_and<>{})', 'r = T(~T(0)); for (size_t i = 0; i < N; ++i) r = T(r & a[i]);')
op('hor', 'S:V', INT, 'dpm::reduce(a, std::bit_or<>{})', 'r = 0; for (size_t i = 0; i < N; ++i) r = T(r | a[i]);')
op('hxor', 'S:V', INT, 'dpm::reduce(a, std::bit_xor<>{})', 'r = 0; for (size_t i = 0; i < N; ++i) r = T(r ^ a[i]);')
op('hcust', 'S:V', INT, 'dpm::reduce(a, [](auto x, auto y){ return x ^ y; })', 'r = 0; for (size_t i = 0; i < N; ++i) r = T(r ^ a[i]);')
op('hfadd', 'S:V', FP, 'dpm::reduce(a)', 'r = 0; for (size_t i = 0; i < N; ++i) r += a[i];', dom='smallint')
op('hfmul', 'S:V', FP, 'dpm::reduce(a, std::multiplies<>{})', 'r = 1; for (size_t i = 0; i < N; ++i) r *= a[i];', dom='smallint')
op('hcustf', 'S:V', FP, 'dpm::reduce(a, [](auto x, auto y){ return x + y; })', 'r = 0; for (size_t i = 0; i < N; ++i) r += a[i];', dom='smallint')
op('hmin', 'S:V', ALL, 'dpm::reduce_min(a)', 'r = a[0]; for (size_t i = 0; i < N; ++i) r = std::min(r, a[i]);', cmp='zs', dom='nonan')
op('hmax', 'S:V', ALL, 'dpm::reduce_max(a)', 'r = a[0]; for (size_t i = 0; i < N; ++i) r = std::max(r, a[i]);', cmp='zs', dom='nonan')
# casts
for t in ALL:
    op('cast_' + t, 'X%s:V' % t, ALL, 'dpm::static_simd_cast<dpm::simd<%s, ABI>>(a)' % CT[t], '(%s)(a)' % CT[t], dom='cast_' + t)
    op('conv_' + t, 'X%s:V' % t, ALL, 'static_cast<dpm::simd<%s, ABI>>(a)' % CT[t], '(%s)(a)' % CT[t], dom='cast_' + t)
# float basics
op('abs', 'V:V', FP + SINT, 'dpm::abs(a)', 'T(a < 0 ? W(0) - W(a) : W(a))|std::fabs(a)')
op('fabs', 'V:V', FP, 'dpm::fabs(a)', 'std::fabs(a)')
op('fmod', 'V:VV', FP, 'dpm::fmod(a, b)', 'std::fmod(a, b)')
op('remainder', 'V:VV', FP, 'dpm::remainder(a, b)', 'std::remainder(a, b)')
op('fmax', 'V:VV', FP, 'dpm::fmax(a, b)', 'std::fmax(a, b)', cmp='zs', dom='qnan')
op('fmin', 'V:VV', FP, 'dpm::fmin(a, b)', 'std::fmin(a, b)', cmp='zs', dom='qnan')
op('fdim', 'V:VV', FP, 'dpm::fdim(a, b)', 'std::fdim(a, b)', cmp='zs', dom='fin')
op('lerp', 'V:VVV', FP, 'dpm::lerp(a, b, c)', 'std::fma(b - a, c, a)', cmp='zs', dom='exact')
op('fma', 'V:VVV', FP, 'dpm::fma(a, b, c)', 'std::fma(a, b, c)', dom='exact')
op('fmadd', 'V:VVV', FP, 'dpm::ext::fmadd(a, b, c)', 'std::fma(a, b, c)', dom='exact')
op('fmsub', 'V:VVV', FP, 'dpm::ext::fmsub(a, b, c)', 'std::fma(a, b, -c)', dom='exact')
op('fnmadd', 'V:VVV', FP, 'dpm::ext::fnmadd(a, b, c)', 'std::fma(-a, b, c)', dom='exact')
op('fnmsub', 'V:VVV', FP, 'dpm::ext::fnmsub(a, b, c)', 'std::fma(-a, b, -c)', cmp='zs', dom='exact')
op('copysign', 'V:VV', FP, 'dpm::copysign(a, b)', 'std::copysign(a, b)')
op('sqrt', 'V:V', FP, 'dpm::sqrt(a)', 'std::sqrt(a)')
op('cbrt', 'V:V', FP, 'dpm::cbrt(a)', 'std::cbrt(a)', cmp='ulp8')
op('rcp', 'V:V', FP, 'dpm::ext::rcp(a)', 'T(1) / a', cmp='rel3', dom='pos')
op('rsqrt', 'V:V', FP, 'dpm::ext::rsqrt(a)', 'T(1) / std::sqrt(a)', cmp='rel3', dom='pos')
# rounding
for n in ('ceil', 'floor', 'trunc', 'round', 'rint', 'nearbyint'):
    op(n, 'V:V', FP, 'dpm::%s(a)' % n, 'std::%s(a)' % n)
for n in ('lround', 'lrint', 'llround', 'llrint'):
    op(n, 'L:V', FP, 'dpm::%s(a)' % n, 'std::%s(a)' % n, dom='ilong')
for t in ('i32', 'i64'):
    op('itrunc_' + t, 'X%s:V' % t, FP, 'dpm::ext::itrunc<%s>(a)' % CT[t], '(%s)(a)' % CT[t], dom='cast_' + t)
    op('iround_' + t, 'X%s:V' % t, FP, 'dpm::ext::iround<%s>(a)' % CT[t], '(%s)std::round(a)' % CT[t], dom='cast_' + t)
    op('irint_' + t, 'X%s:V' % t, FP, 'dpm::ext::irint<%s>(a)' % CT[t], '(%s)std::rint(a)' % CT[t], dom='cast_' + t)
# manipulation
op('frexp', 'VI:V', FP, '[&]{ IV x; auto r = dpm::frexp(a, &x); return std::pair{r, x}; }()', '[&]{ int x; auto r = std::frexp(a, &x); if (!std::isfinite(a)) x = 0; return std::pair{r, x}; }()', dom='norm')
op('modf', 'VV:V', FP, '[&]{ V x; auto r = dpm::modf(a, &x); return std::pair{r, x}; }()', '[&]{ T x; auto r = std::modf(a, &x); return std::pair{r, x}; }()', dom='fin')
op('ldexp', 'V:VI', FP, 'dpm::ldexp(a, e)', 'std::ldexp(a, e)')
op('scalbn', 'V:VI', FP, 'dpm::scalbn(a, e)', 'std::scalbn(a, e)')
op('ldexps', 'V:V', FP, 'dpm::ldexp(a, 7)', 'std::ldexp(a, 7)')
op('ilogb', 'I:V', FP, 'dpm::ilogb(a)', 'std::ilogb(a)', dom='norm')
op('logb', 'V:V', FP, 'dpm::logb(a)', 'std::logb(a)', dom='norm')
op('nextafter', 'V:VV', FP, 'dpm::nextafter(a, b)', 'std::nextafter(a, b)')
# classification
for n in ('isfinite', 'isinf', 'isnan', 'isnormal', 'signbit'):
    op(n, 'M:V', FP, 'dpm::%s(a)' % n, 'std::%s(a)' % n)
for n in ('isgreater', 'isgreaterequal', 'isless', 'islessequal', 'islessgreater', 'isunordered'):
    op(n, 'M:VV', FP, 'dpm::%s(a, b)' % n, 'std::%s(a, b)' % n)
op('fpclassify', 'I:V', FP, 'dpm::fpclassify(a)', 'std::fpclassify(a)')
# element access, generators, shuffles, conversions between representations
op('bcast', 'V:S', ALL, 'V(s)', 's')
op('gen', 'V:S', ALL, 'V([&](auto i) { return T(s) + T(i) * T(3); })', 'T(W(s) + W(i) * W(3))|s + T(i) * T(3)', dom='fin')
op('setel', 'V:VSI', ALL, '[&]{ auto t = a; t[unsigned(int(e[0])) % N] = s; return t; }()', '(i == unsigned(e_[0]) % N ? s : a)')
op('msetel', 'M:MMI', ALL, '[&]{ auto t = m; t[unsigned(int(e[0])) % N] = bool(n[0]); return t; }()', '(i == unsigned(e_[0]) % N ? n_[0] : m)')
op('rev', 'V:V', ALL, '[&]<size_t... J>(std::index_sequence<J...>) { return static_cast<V>(dpm::ext::shuffle<(N - 1 - J)...>(a)); }(std::make_index_sequence<N>{})', 'a_[N - 1 - i]')
op('rot', 'V:V', ALL, '[&]<size_t... J>(std::index_sequence<J...>) { return static_cast<V>(dpm::ext::shuffle<((J + 1) % N)...>(a)); }(std::make_index_sequence<N>{})', 'a_[(i + 1) % N]')
op('mrev', 'M:M', ALL, '[&]<size_t... J>(std::index_sequence<J...>) { return static_cast<M>(dpm::ext::shuffle<(N - 1 - J)...>(m)); }(std::make_index_sequence<N>{})', 'm_[N - 1 - i]')
op('viapk', 'V:V', ALL, 'static_cast<V>(static_cast<dpm::simd<T, dpm::simd_abi::ext::packed_buffer<N>>>(a))', 'a')
op('viafs', 'V:V', ALL, 'static_cast<V>(dpm::to_fixed_size(a))', 'a')
op('mviapk', 'M:M', ALL, 'static_cast<M>(static_cast<dpm::simd_mask<T, dpm::simd_abi::ext::packed_buffer<N>>>(m))', 'm')
op('mviafs', 'M:M', ALL, 'static_cast<M>(dpm::to_fixed_size(m))', 'm')
for t in ('i8', 'i16', 'i32', 'f64'):
    op('mvia_' + t, 'M:M', ALL, 'static_cast<M>(static_cast<dpm::simd_mask<%s, ABI>>(m))' % CT[t], 'm')
# scalar and compound forms
for n, o in (('andeq', '&'), ('oreq', '|'), ('xoreq', '^')):
    op(n, 'V:VV', INT, '[&]{ auto t = a; t %s= b; return t; }()' % o, 'T(a %s b)' % o)
    op('m' + n, 'M:MM', ALL, '[&]{ auto t = m; t %s= n; return t; }()' % o, 'm %s n' % o)
op('diveq', 'V:VV', FP, '[&]{ auto t = a; t /= b; return t; }()', 'a / b')
op('addeqs', 'V:VS', ALL, '[&]{ auto t = a; t += s; return t; }()', 'T(W(a) + W(s))|a + s')
op('muleqs', 'V:VS', ALL, '[&]{ auto t = a; t *= s; return t; }()', 'T(W(a) * W(s))|a * s')
op('shleqs', 'V:VS', INT, '[&]{ auto t = a; t <<= s; return t; }()', 'T(U(a) << s)', dom='shift')
op('shreqs', 'V:VS', INT, '[&]{ auto t = a; t >>= s; return t; }()', 'T(a >> s)', dom='shift')
op('clamps', 'V:VS', ALL, 'dpm::clamp(a, std::min<T>(s, T(5)), std::max<T>(s, T(5)))', 'std::clamp(a, std::min<T>(s, T(5)), std::max<T>(s, T(5)))', cmp='zs', dom='nonan')
op('minmaxs', 'VV:VS', ALL, 'dpm::minmax(a, s)', 'P2(std::min(a, s), std::max(a, s))', cmp='zs', dom='nonan')
op('fdims', 'V:VS', FP, 'dpm::fdim(a, s)', 'std::fdim(a, s)', cmp='zs', dom='fin')
op('scalbns', 'V:V', FP, 'dpm::scalbn(a, -9)', 'std::scalbn(a, -9)')
op('scalbln', 'V:VI', FP, 'dpm::scalbln(a, dpm::static_simd_cast<dpm::simd<long, ABI>>(e))', 'std::scalbln(a, long(e))')
op('pows', 'V:VS', FP, 'dpm::pow(a, s)', 'std::pow(a, s)', cmp='ulp8', dom='qnan')
# elementary
for n in ('exp', 'exp2', 'expm1', 'log', 'log2', 'log10', 'log1p', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan',
          'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh', 'erf', 'erfc', 'tgamma', 'lgamma'):
    op(n, 'V:V', FP, 'dpm::%s(a)' % n, 'std::%s(a)' % n, cmp='tan' if n == 'tan' else 'el' if n in ('log', 'log2', 'log10', 'log1p', 'sin', 'cos', 'asin', 'acos', 'atan') else 'ulp8', dom='trig' if n in ('sin', 'cos', 'tan') else 'any')
for n in ('hypot', 'pow', 'atan2'):
    op(n, 'V:VV', FP, 'dpm::%s(a, b)' % n, 'std::%s(a, b)' % n, cmp='ulp8', dom='qnan')
op('sincos', 'VV:V', FP, '[&]{ V s_, c_; dpm::ext::sincos(a, s_, c_); return std::pair{s_, c_}; }()', 'P2(std::sin(a), std::cos(a))', cmp='el', dom='trig')
# shifts by amounts relative to the lane width (64-bit lanes cross their halves)
for k, w in (('h', 'sizeof(T) * 4'), ('q', 'sizeof(T) * 6'), ('w', 'sizeof(T) * 8 - 2'), ('z', '0')):
    op('lsl' + k, 'V:V', INT, 'dpm::ext::lsl<(%s)>(a)' % w, 'T(U(a) << (%s))' % w)
    op('lsr' + k, 'V:V', INT, 'dpm::ext::lsr<(%s)>(a)' % w, 'T(U(a) >> (%s))' % w)
    op('asl' + k, 'V:V', SINT, 'dpm::ext::asl<(%s)>(a)' % w, 'T(U(a) << (%s))' % w)
    op('asr' + k, 'V:V', SINT, 'dpm::ext::asr<(%s)>(a)' % w, 'T(a >> (%s))' % w)
# operators with a scalar on either side
op('idivs', 'V:VS', INT, 'a / s', 'T(a / s)', dom='idiv')
op('imods', 'V:VS', INT, 'a % s', 'T(a % s)', dom='idiv')
op('idiveq', 'V:VV', INT, '[&]{ auto t = a; t /= b; return t; }()', 'T(a / b)', dom='idiv')
op('imodeq', 'V:VV', INT, '[&]{ auto t = a; t %= b; return t; }()', 'T(a % b)', dom='idiv')
op('subeqs', 'V:VS', ALL, '[&]{ auto t = a; t -= s; return t; }()', 'T(W(a) - W(s))|a - s')
op('diveqs', 'V:VS', FP, '[&]{ auto t = a; t /= s; return t; }()', 'a / s')
for n, o in (('and', '&'), ('or', '|'), ('xor', '^')):
    op(n + 'eqs', 'V:VS', INT, '[&]{ auto t = a; t %s= s; return t; }()' % o, 'T(a %s s)' % o)
op('flnot', 'M:V', FP, '!a', '!a')
# reductions by name
op('xhadd', 'S:V', INT, 'dpm::ext::hadd(a)', 'r = 0; for (size_t i = 0; i < N; ++i) r = T(W(r) + W(a[i]));')
op('xhmul', 'S:V', INT, 'dpm::ext::hmul(a)', 'r = 1; for (size_t i = 0; i < N; ++i) r = T(W(r) * W(a[i]));')
op('xhand', 'S:V', INT, 'dpm::ext::hand(a)', 'r = T(~T(0)); for (size_t i = 0; i < N; ++i) r = T(r & a[i]);')
op('xhor', 'S:V', INT, 'dpm::ext::hor(a)', 'r = 0; for (size_t i = 0; i < N; ++i) r = T(r | a[i]);')
op('xhxor', 'S:V', INT, 'dpm::ext::hxor(a)', 'r = 0; for (size_t i = 0; i < N; ++i) r = T(r ^ a[i]);')
op('xhfadd', 'S:V', FP, 'dpm::ext::hadd(a)', 'r = 0; for (size_t i = 0; i < N; ++i) r += a[i];', dom='smallint')
op('xhfmul', 'S:V', FP, 'dpm::ext::hmul(a)', 'r = 1; for (size_t i = 0; i < N; ++i) r *= a[i];', dom='smallint')
# scalar operands
op('fmods', 'V:VS', FP, 'dpm::fmod(a, s)', 'std::fmod(a, s)')
op('remainders', 'V:VS', FP, 'dpm::remainder(a, s)', 'std::remainder(a, s)')
op('pdec', 'V:V', ALL, '[&]{ auto t = a; auto r = t--; return r + (t - r); }()', 'T(W(a) - W(1))|a + ((a - T(1)) - a)')
op('fmaxs', 'V:VS', FP, 'dpm::fmax(a, s)', 'std::fmax(a, s)', cmp='zs', dom='qnan')
op('fmins', 'V:VS', FP, 'dpm::fmin(a, s)', 'std::fmin(a, s)', cmp='zs', dom='qnan')
op('lerps', 'V:VVS', FP, 'dpm::lerp(a, b, s)', 'std::fma(b - a, s, a)', cmp='zs', dom='exact')
op('copysigns', 'V:VS', FP, 'dpm::copysign(a, s)', 'std::copysign(a, s)')
op('remquo', 'VI:VV', FP, '[&]{ IV x; auto r = dpm::remquo(a, b, &x); return std::pair{r, x}; }()', '[&]{ int x = 0; auto r = std::remquo(a, b, &x); return std::pair{r, x}; }()', dom='mod')
op('frexpr', 'VI:V', FP, '[&]{ IV x; auto r = dpm::ext::frexp(a, x); return std::pair{r, x}; }()', '[&]{ int x; auto r = std::frexp(a, &x); if (!std::isfinite(a)) x = 0; return std::pair{r, x}; }()', dom='norm')
op('modfr', 'VV:V', FP, '[&]{ V x; auto r = dpm::ext::modf(a, x); return std::pair{r, x}; }()', '[&]{ T x; auto r = std::modf(a, &x); return std::pair{r, x}; }()', dom='fin')
op('scalblns', 'V:V', FP, 'dpm::scalbln(a, 11l)', 'std::scalbln(a, 11l)')
op('ltrunc', 'L:V', FP, 'dpm::ext::ltrunc(a)', '(long)(a)', dom='ilong')
op('lltrunc', 'L:V', FP, 'dpm::ext::lltrunc(a)', '(long)(a)', dom='ilong')
op('nanv', 'V:V', FP, '[&]{ auto t = dpm::ext::nan<T, ABI>("1"); return a + t; }()', 'a + std::numeric_limits<T>::quiet_NaN()')
# promoted arguments: integers are computed as double, the wider type of mixed arguments is used
D = 'dpm::simd<double, ABI>'
for n in ('sqrt', 'cbrt', 'exp', 'exp2', 'expm1', 'log', 'log2', 'log10', 'log1p', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh', 'erf', 'erfc', 'tgamma', 'lgamma', 'logb'):
    op('p_' + n, 'Xf64:V', INT, 'static_cast<%s>(dpm::%s(a))' % (D, n), 'std::%s(double(a))' % n, cmp='tan' if n == 'tan' else 'el' if n in ('log', 'log2', 'log10', 'log1p', 'sin', 'cos', 'asin', 'acos', 'atan') else 'zs' if n in ('ceil', 'floor', 'trunc', 'round', 'rint', 'nearbyint') else 'ulp8', dom='trig' if n in ('sin', 'cos', 'tan') else 'pos' if n == 'logb' else 'any')
B = 'wrap::wided<ABI>(b)'       # as double, with low bits no float has
for n in ('hypot', 'pow', 'atan2', 'fmod', 'remainder', 'fmax', 'fmin', 'fdim', 'copysign', 'nextafter'):
    c = 'ulp8' if n in ('hypot', 'pow', 'atan2') else 'zs'
    d = 'fin' if n == 'fdim' else 'qnan' if n in ('fmax', 'fmin', 'hypot', 'pow', 'atan2') else 'any'
    op('p_' + n, 'Xf64:VV', INT, 'static_cast<%s>(dpm::%s(a, b))' % (D, n), 'std::%s(double(a), double(b))' % n, cmp=c)
    op('w_' + n, 'Xf64:VV', ['f32', 'i32'], 'static_cast<%s>(dpm::%s(a, %s))' % (D, n, B), 'std::%s(double(a), wide(double(b)))' % n, cmp=c, dom=d)
    op('x_' + n, 'Xf64:VV', ['f32', 'i32'], 'static_cast<%s>(dpm::%s(%s, a))' % (D, n, B), 'std::%s(wide(double(b)), double(a))' % n, cmp=c, dom=d)
for n in ('fmod', 'remainder', 'fmax', 'fmin', 'fdim', 'pow', 'copysign'):
    c = 'ulp8' if n in ('hypot', 'pow', 'atan2') else 'zs'
    d = 'fin' if n == 'fdim' else 'qnan' if n in ('fmax', 'fmin', 'hypot', 'pow', 'atan2') else 'any'
    op('ws_' + n, 'Xf64:VS', ['f32', 'i32'], 'static_cast<%s>(dpm::%s(a, wide(double(s))))' % (D, n), 'std::%s(double(a), wide(double(s)))' % n, cmp=c, dom=d)
op('w_fma', 'Xf64:VVV', ['f32', 'i32'], 'static_cast<%s>(dpm::fma(a, b, %s))' % (D, B.replace('(b)', '(c)')), 'std::fma(double(a), double(b), wide(double(c)))', dom='exact')
op('w_remquo', 'VI:VV', ['f32', 'i32'], '[&]{ IV x; auto r = dpm::remquo(a, %s, &x); return std::pair{static_cast<V>(dpm::static_simd_cast<T>(r)), x}; }()' % B, '[&]{ int x = 0; auto r = std::remquo(double(a), wide(double(b)), &x); return std::pair{T(r), x}; }()', dom='mod')
for n in ('isfinite', 'isinf', 'isnan', 'isnormal', 'signbit'):
    op('p_' + n, 'M:V', INT, 'static_cast<M>(dpm::%s(a))' % n, 'std::%s(double(a))' % n)
for n in ('isgreater', 'isgreaterequal', 'isless', 'islessequal', 'islessgreater', 'isunordered'):
    op('w_' + n, 'M:VV', ['f32', 'i32'], 'static_cast<M>(dpm::%s(a, %s))' % (n, B), 'std::%s(double(a), wide(double(b)))' % n)
    op('x_' + n, 'M:VV', ['f32', 'i32'], 'static_cast<M>(dpm::%s(%s, a))' % (n, B), 'std::%s(wide(double(b)), double(a))' % n)
    op('p_' + n, 'M:VV', INT, 'static_cast<M>(dpm::%s(a, b))' % n, 'std::%s(double(a), double(b))' % n)
for n in ('fmadd', 'fmsub', 'fnmadd', 'fnmsub'):
    op('w_' + n, 'Xf64:VVV', ['f32', 'i32'], 'static_cast<%s>(dpm::ext::%s(a, b, %s))' % (D, n, B.replace('(b)', '(c)')), 'std::fma(%sdouble(a), double(b), %swide(double(c)))' % ('-' if n[1] == 'n' else '', '-' if 'sub' in n else ''), cmp='zs', dom='exact')
op('w_lerp', 'Xf64:VVV', ['f32', 'i32'], 'static_cast<%s>(dpm::lerp(a, dpm::static_simd_cast<%s>(b), c))' % (D, D), 'std::fma(double(b) - double(a), double(c), double(a))', cmp='zs', dom='exact')
op('p_lerp', 'Xf64:VVV', ['i8', 'i16', 'i32'], 'static_cast<%s>(dpm::lerp(a, b, c))' % D, 'std::fma(double(b) - double(a), double(c), double(a))', cmp='zs', dom='exact')
op('ws_lerp', 'Xf64:VVS', ['f32', 'i32'], 'static_cast<%s>(dpm::lerp(a, dpm::static_simd_cast<%s>(b), s))' % (D, D), 'std::fma(double(b) - double(a), double(s), double(a))', cmp='zs', dom='exact')
for n in ('fmod', 'remainder', 'fmax', 'fmin', 'fdim', 'pow', 'copysign'):
    op('p_%ss' % n, 'Xf64:VS', INT, 'static_cast<%s>(dpm::%s(a, s))' % (D, n), 'std::%s(double(a), double(s))' % n, cmp='ulp8' if n == 'pow' else 'zs')
op('p_rcp', 'Xf64:V', INT, 'static_cast<%s>(dpm::ext::rcp(a))' % D, '1. / double(a)', cmp='rel3', dom='pos')
op('p_rsqrt', 'Xf64:V', INT, 'static_cast<%s>(dpm::ext::rsqrt(a))' % D, '1. / std::sqrt(double(a))', cmp='rel3', dom='pos')
op('p_frexp', 'Xf64I:V', INT, '[&]{ IV x; auto r = dpm::frexp(a, &x); return std::pair{static_cast<%s>(r), x}; }()' % D, '[&]{ int x; auto r = std::frexp(double(a), &x); return std::pair{r, x}; }()')
op('p_remquo', 'Xf64I:VV', INT, '[&]{ IV x; auto r = dpm::remquo(a, b, &x); return std::pair{static_cast<%s>(r), x}; }()' % D, '[&]{ int x = 0; auto r = std::remquo(double(a), double(b), &x); return std::pair{r, x}; }()', dom='mod')
op('p_scalbn', 'Xf64:VI', INT, 'static_cast<%s>(dpm::scalbn(a, e))' % D, 'std::scalbn(double(a), e)')
op('p_ldexps', 'Xf64:V', INT, 'static_cast<%s>(dpm::ldexp(a, 5))' % D, 'std::ldexp(double(a), 5)')
op('p_scalblns', 'Xf64:V', INT, 'static_cast<%s>(dpm::scalbln(a, -7l))' % D, 'std::scalbln(double(a), -7l)')
op('p_copyneg', 'Xf64:VV', ['i8', 'i16', 'i32', 'i64'], 'static_cast<%s>(dpm::copysign(a, -b))' % D, 'std::copysign(double(a), double(T(W(0) - W(b))))')
op('p_ilogb', 'I:V', INT, 'static_cast<IV>(dpm::ilogb(a))', 'std::ilogb(double(a))', dom='pos')
op('p_fpclassify', 'I:V', INT, 'static_cast<IV>(dpm::fpclassify(a))', 'std::fpclassify(double(a))')
op('p_ldexp', 'Xf64:VI', INT, 'static_cast<%s>(dpm::ldexp(a, e))' % D, 'std::ldexp(double(a), e)')
op('p_scalbns', 'Xf64:V', INT, 'static_cast<%s>(dpm::scalbn(a, -3))' % D, 'std::scalbn(double(a), -3)')
# representations and casts
for t in ALL:
    op('scast_' + t, 'X%s:V' % t, [x for x in ALL if x != t], 'static_cast<dpm::simd<%s, ABI>>(dpm::simd_cast<%s>(a))' % (CT[t], CT[t]), '(%s)(a)' % CT[t], dom='cast_' + t)
op('ecast_f64', 'Xf64:V', ALL, 'static_cast<%s>(dpm::static_simd_cast<double>(a))' % D, '(double)(a)')
op('ecast_i32', 'Xi32:V', ALL, 'static_cast<dpm::simd<int, ABI>>(dpm::static_simd_cast<int>(a))', '(int)(a)', dom='cast_i32')
op('natd', 'V:VV', ALL, '[&]{ auto p = dpm::ext::to_native_data(a); V r = b; auto q = dpm::ext::to_native_data(r); std::copy(p.begin(), p.end(), q.begin()); return r; }()', 'a')
op('mnatd', 'M:MM', ALL, '[&]{ auto p = dpm::ext::to_native_data(m); M r = n; auto q = dpm::ext::to_native_data(r); std::copy(p.begin(), p.end(), q.begin()); return r; }()', 'm')
op('vianat', 'V:V', ALL, 'static_cast<V>(dpm::to_native(a))', 'a')
op('viacom', 'V:V', ALL, 'static_cast<V>(dpm::to_compatible(a))', 'a')
op('mvianat', 'M:M', ALL, 'static_cast<M>(dpm::to_native(m))', 'm')
for n, f in (('shmix', '(J % 2 ? N - 1 - J / 2 : J / 2)'), ('shb0', '(J * 0)'), ('shbl', '(J * 0 + N - 1)'), ('shswap', '((J ^ 1) < N ? (J ^ 1) : J)'), ('shfar', '((J * 7 + N / 2 + 1) % N)')):
    op(n, 'V:V', ALL, '[&]<size_t... J>(std::index_sequence<J...>) { return static_cast<V>(dpm::ext::shuffle<%s...>(a)); }(std::make_index_sequence<N>{})' % f, 'a_[%s]' % f.replace('J', 'i'))
    op('m' + n, 'M:M', ALL, '[&]<size_t... J>(std::index_sequence<J...>) { return static_cast<M>(dpm::ext::shuffle<%s...>(m)); }(std::make_index_sequence<N>{})' % f, 'm_[%s]' % f.replace('J', 'i'))
# shuffles to fewer and to more lanes (folded back into N lanes), element references of masks
GROW = '(N + N / 2 + 1 > 64 ? 64 : N + N / 2 + 1)'
for k, x in (('', 'a'), ('m', 'm')):
    R = 'M' if k else 'V'
    op(k + 'shpick', '%s:%s' % (R, R), ALL, '[&]{ auto x = dpm::ext::shuffle<N - 1, N / 2, 0>(%s); %s r = %s; for (size_t i = 0; i < N; ++i) r[i] = x[i %% 3]; return r; }()' % (x, R, x), '%s_[i %% 3 == 0 ? N - 1 : i %% 3 == 1 ? N / 2 : 0]' % x)
    op(k + 'shgrow', '%s:%s' % (R, R), ALL, '[&]<size_t... J>(std::index_sequence<J...>) { auto x = dpm::ext::shuffle<((J * 5 + 2) %% N)...>(%s); %s r = %s; for (size_t i = 0; i < N; ++i) r[i] = x[i + %s - N]; return r; }(std::make_index_sequence<%s>{})' % (x, R, x, GROW, GROW), '%s_[((i + %s - N) * 5 + 2) %% N]' % (x, GROW))
for n, o in (('and', '&'), ('or', '|'), ('xor', '^')):
    op('mref' + n, 'M:MMI', ALL, '[&]{ auto t = m; size_t k = unsigned(int(e[0])) %% N; t[k] %s= bool(n[0]); t[N - 1] = t[N - 1] %s bool(n[N - 1]); return t; }()' % (o, o),
       '[&]{ size_t k = unsigned(e_[0]) %% N; bool r = i == k ? m %s n_[0] : m; if (i == N - 1) r = r %s n; return r; }()' % (o, o))
op('mrefcpy', 'M:MMI', ALL, '[&]{ auto t = m; size_t k = unsigned(int(e[0])) % N; t[k] = n[N - 1 - k]; t[0] = !t[0]; return t; }()', '[&]{ size_t k = unsigned(e_[0]) % N; bool r = i == k ? n_[N - 1 - k] : m; return i == 0 ? !r : r; }()')
op('mrefswap', 'M:MMI', ALL, '[&]{ auto t = m; auto u = n; size_t k = unsigned(int(e[0])) % N; using std::swap; swap(t[k], u[N - 1 - k]); bool x = true; swap(x, t[0]); swap(u[0], x); t[N - 1] = bool(u[0]); return t; }()',
   '[&]{ size_t k = unsigned(e_[0]) % N; auto f = [&](size_t j) { return j == k ? n_[N - 1 - k] : m_[j]; }; return i == N - 1 ? f(0) : i == 0 ? true : f(i); }()')
NEW = [o['name'] for o in OPS[OPS.index(next(o for o in OPS if o['name'] == 'lslh')):]]
