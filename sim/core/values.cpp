// Lane value generation, operation domains, comparison.
#include "engine.hpp"
#include <cmath>
#include <cstdio>
#include <limits>
namespace sim {
RefFn ref_fn[TY_N][512];
std::uint64_t hash_bytes(std::uint64_t h, const void *p, std::size_t n) {
	auto *b = static_cast<const unsigned char *>(p);
	while (n >= 8) { std::uint64_t v; std::memcpy(&v, b, 8); h = mix(h, v); b += 8; n -= 8; }
	std::uint64_t v = n; for (std::size_t i = 0; i < n; ++i) v = (v << 8) | b[i];
	return mix(h, v);
}
template<class T> static T special(Rng &r) {
	if constexpr (std::is_floating_point_v<T>) {
		using L = std::numeric_limits<T>;
		static const T s[] = {T(0), -T(0), T(1), T(-1), T(0.5), T(-0.5), T(1.5), T(2.5), T(-2.5), T(3), L::infinity(), -L::infinity(), L::quiet_NaN(),
			L::min(), -L::min(), L::denorm_min(), -L::denorm_min(), L::max(), L::lowest(), T(1e5), T(-7.25), T(1) / 3, T(3e9), T(-5e9), T(0.49999997), T(8388609), T(-2147483648.0), T(4503599627370497.0)};
		return s[r.below(sizeof(s) / sizeof(T))];
	} else {
		using L = std::numeric_limits<T>;
		static const T s[] = {T(0), T(1), T(-1), L::max(), L::min(), T(2), T(100), T(L::max() / 2), T(L::max() / 2 + 1)};
		return s[r.below(sizeof(s) / sizeof(T))];
	}
}
template<class T> static T uniform(Rng &r, double lo, double hi) { return T(lo + (hi - lo) * (double(r.next() >> 11) / 9007199254740992.0)); }
template<class T> static bool cast_ok(Dom d, T v) {
	if constexpr (std::is_floating_point_v<T>) {
		double x = double(v);
		switch (d) {
			case dom_cast_i8: return x > -129 && x < 128; case dom_cast_u8: return x > -1 && x < 256;
			case dom_cast_i16: return x > -32769 && x < 32768; case dom_cast_u16: return x > -1 && x < 65536;
			case dom_cast_i32: return x > -2147483649.0 && x < 2147483648.0; case dom_cast_u32: return x > -1 && x < 4294967296.0;
			case dom_cast_i64: return x >= -9.2e18 && x < 9.2e18; case dom_cast_u64: return x > -1 && x < 1.8e19;
			default: return true;
		}
	} else return true;
}
template<class T> static bool ok(Dom d, int pos, T v) {
	if (d >= dom_cast_i8) return cast_ok(d, v);
	if constexpr (std::is_floating_point_v<T>) {
		double x = double(v);
		switch (d) {
			case dom_nonan: return v == v;
			case dom_qnan: { if (v == v) return true; std::uint64_t b = 0; std::memcpy(&b, &v, sizeof v); return b >> (sizeof(T) == 4 ? 22 : 51) & 1; }   // no signalling NaN
			case dom_smallint: return std::fabs(x) <= 3 && x == std::floor(x) && x != 0;
			case dom_exact: return std::fabs(x) <= 1000 && x == std::floor(x);
			case dom_ilong: return x > -9e18 && x < 9e18;
			case dom_norm: return std::isnormal(v);
			case dom_fin: return std::isfinite(v);
			case dom_mod: return std::isfinite(v) && std::fabs(x) < 1e6 && (pos == 0 || std::fabs(x) > 1e-3);
			case dom_trig: return !(std::fabs(x) > 1000) || std::isinf(x);
			case dom_pos: return x > 1e-30 && x < 1e30;
			case dom_unit: return std::fabs(x) <= 1;
			case dom_exp: return std::fabs(x) <= 80;
			case dom_dom31: return std::fabs(x) < 2147483000.0;
			default: return true;
		}
	} else switch (d) {
		case dom_shift: return pos == 0 || (v >= 0 && v <= T(sizeof(T) * 8 - 1));
		case dom_trig: return double(v) <= 1000 && double(v) >= -1000;
		case dom_pos: return v > 0;
		case dom_exact: return double(v) <= 1000 && double(v) >= -1000;
		case dom_ilong: return double(v) < 9e18;
		case dom_idiv: return pos == 0 ? (std::is_unsigned_v<T> || v != std::numeric_limits<T>::min()) : v != 0;
		default: return true;
	}
}
template<class T> static T gen1(Rng &r, Dom d, int pos) {
	if (d == dom_shift && pos) return T(r.below(sizeof(T) * 8));
	if constexpr (std::is_floating_point_v<T>) {
		if (d == dom_exact) return T(int(r.below(2001)) - 1000);
		if (d == dom_smallint) { int v = int(r.below(7)) - 3; return T(v ? v : 1); }
		if (d >= dom_cast_i8 && d < dom_cast_f32 && r.chance(2, 3)) {
			double m = d == dom_cast_i8 ? 127.9 : d == dom_cast_u8 ? 255.9 : d == dom_cast_i16 || d == dom_cast_u16 ? 32767.9 : 2.1e9;
			return uniform<T>(r, d == dom_cast_u8 || d == dom_cast_u16 || d == dom_cast_u32 || d == dom_cast_u64 ? 0 : -m, m);
		}
		if (d == dom_mod) return uniform<T>(r, 0.01, 1000) * (r.next() & 1 ? 1 : -1);
		if (d == dom_trig && r.chance(3, 4)) return uniform<T>(r, -1000, 1000) * T(r.chance(1, 3) ? 0.01 : 1);
		if (d == dom_pos) return std::ldexp(uniform<T>(r, 1, 2), int(r.below(100)) - 50);
		if (d == dom_unit) return uniform<T>(r, -1, 1);
		if (d == dom_exp && r.chance(3, 4)) return uniform<T>(r, -80, 80);
		switch (r.below(9)) {
			case 0: case 1: return special<T>(r);
			case 8: {                                                                            // subnormals and exponents at both ends of the range
				using L = std::numeric_limits<T>; T m = uniform<T>(r, 1, 2) * (r.next() & 1 ? 1 : -1);
				switch (r.below(3)) { case 0: return L::min() * (m / 2) * uniform<T>(r, 0, 1); case 1: return std::ldexp(m, L::min_exponent - 1 + int(r.below(2 * L::digits)) - L::digits); default: return std::ldexp(m, L::max_exponent - 1 - int(r.below(8))); }
			}
			case 2: { T v; auto b = r.next(); std::memcpy(&v, &b, sizeof v); return v; }
			case 3: return T(double(std::int64_t(r.below(20001)) - 10000) / 2);                 // ties
			case 4: return std::ldexp(uniform<T>(r, -1, 1), int(r.below(120)) - 60);
			default: return T(double(std::int64_t(r.below(2000001)) - 1000000) / 65536.0);
		}
	} else if (d == dom_exact || d == dom_trig) return T(std::int64_t(r.below(2001)) - (std::is_signed_v<T> ? 1000 : 0));
	else return r.chance(1, 3) ? special<T>(r) : r.chance(1, 2) ? T(r.next()) : T(std::int64_t(r.below(41)) - 20);
}
template<class T> static void gen(Rng &r, Dom d, int pos, void *lane) {
	T v; int k = 0;
	do v = gen1<T>(r, d, pos); while (!ok(d, pos, v) && ++k < 200);
	if (k >= 200) v = T(1);
	std::memcpy(lane, &v, sizeof v);
}
#define DISPATCH(F, ...) switch (t) { \
	case i8: F(std::int8_t, __VA_ARGS__); case u8: F(std::uint8_t, __VA_ARGS__); case i16: F(std::int16_t, __VA_ARGS__); case u16: F(std::uint16_t, __VA_ARGS__); \
	case i32: F(std::int32_t, __VA_ARGS__); case u32: F(std::uint32_t, __VA_ARGS__); case i64: F(std::int64_t, __VA_ARGS__); case u64: case tz: F(std::uint64_t, __VA_ARGS__); \
	case f32: F(float, __VA_ARGS__); case f64: F(double, __VA_ARGS__); default: F(std::uint8_t, __VA_ARGS__); }
void gen_lane(Rng &r, Ty t, Dom d, int pos, void *lane) {
	if (t == tb) { *static_cast<unsigned char *>(lane) = r.next() & 1; return; }
#define G(T, ...) return gen<T>(r, d, pos, lane)
	DISPATCH(G, 0)
}
bool lane_ok(Ty t, Dom d, int pos, const void *lane) {
	if (t == tb) return true;
#define O(T, ...) { T v; std::memcpy(&v, lane, sizeof v); return ok<T>(d, pos, v); }
	DISPATCH(O, 0)
}
template<class T> static bool eq(Cmp c, const void *pa, const void *pb) {
	T a, b; std::memcpy(&a, pa, sizeof a); std::memcpy(&b, pb, sizeof b);
	if (!std::memcmp(&a, &b, sizeof a)) return true;
	if constexpr (!std::is_floating_point_v<T>) return false;
	else {
		if (a != a && b != b) return true;                     // any NaN stands for NaN
		if (c == cmp_bits) return false;
		if (c == cmp_any || a == b) return true;
		if (c == cmp_zs || !std::isfinite(a) || !std::isfinite(b)) return false;
		double d = std::fabs(double(a) - double(b)), m = std::fabs(double(b)), e = std::numeric_limits<T>::epsilon();
		if (c == cmp_rel3) return d <= m * 2e-3;
		if (c == cmp_el || c == cmp_tan) {                     // coarse: the property bounds gross error, not accuracy
			double rel = sizeof(T) == 4 ? 0x1p-11 : 0x1p-28, ab = sizeof(T) == 4 ? 0x1p-16 : 0x1p-38;
			return d <= rel * m + ab || (c == cmp_tan && d <= rel * m * m);
		}
		if (d <= 8 * m * e || d <= 8 * double(std::numeric_limits<T>::denorm_min())) return true;
		return false;
	}
}
bool lane_eq(Ty t, Cmp c, const void *a, const void *b) {
	if (t == tb) return *static_cast<const unsigned char *>(a) == *static_cast<const unsigned char *>(b);
#define E(T, ...) return eq<T>(c, a, b)
	DISPATCH(E, 0)
}
std::string lane_str(Ty t, const void *l) {
	char b[64];
	if (t == f32 || t == f64) {
		double x; if (t == f32) { float f; std::memcpy(&f, l, 4); x = f; } else std::memcpy(&x, l, 8);
		std::snprintf(b, sizeof b, "%.17g", x);
	} else {
		std::uint64_t u = 0; std::memcpy(&u, l, ty_size[t]);
		bool sg = t == i8 || t == i16 || t == i32 || t == i64;
		if (sg) { int sh = 64 - 8 * ty_size[t]; std::snprintf(b, sizeof b, "%lld", (long long)(std::int64_t(u << sh) >> sh)); }
		else std::snprintf(b, sizeof b, "%llu", (unsigned long long)u);
	}
	return b;
}
}
