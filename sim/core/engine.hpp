#pragma once
#include "table.hpp"
#include <string>
#include <vector>
namespace sim {
enum Dom { dom_any, dom_shift, dom_nonan, dom_idiv, dom_anymask, dom_smallint, dom_ilong, dom_norm, dom_fin, dom_mod, dom_trig, dom_pos, dom_unit, dom_exp, dom_dom31, dom_exact, dom_qnan,
	dom_cast_i8, dom_cast_u8, dom_cast_i16, dom_cast_u16, dom_cast_i32, dom_cast_u32, dom_cast_i64, dom_cast_u64, dom_cast_f32, dom_cast_f64 };
enum Cmp { cmp_bits, cmp_zs, cmp_ulp8, cmp_rel3, cmp_el, cmp_tan, cmp_any };
struct OpMeta { const char *name, *outs, *ins; Dom dom; Cmp cmp; };
extern const OpMeta op_meta[];
extern const int op_count;
using RefFn = void (*)(int n, const void *const *in, void *const *out);
extern RefFn ref_fn[TY_N][512];

struct Rng {                       // splitmix64
	std::uint64_t s;
	explicit Rng(std::uint64_t x = 0) : s(x) {}
	std::uint64_t next() { std::uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
	std::uint64_t below(std::uint64_t n) { return n ? next() % n : 0; }
	bool chance(int num, int den) { return int(below(den)) < num; }
};
inline std::uint64_t mix(std::uint64_t h, std::uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 33); }
std::uint64_t hash_bytes(std::uint64_t h, const void *p, std::size_t n);
void gen_lane(Rng &r, Ty t, Dom d, int pos, void *lane);      // one lane value inside the operation's domain
bool lane_ok(Ty t, Dom d, int pos, const void *lane);
bool lane_eq(Ty t, Cmp c, const void *got, const void *want);
std::string lane_str(Ty t, const void *lane);
}
