// Shared layout between the generated wrapper units (real library code) and the simulator engine.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
namespace sim {
enum Ty : int { i8, u8, i16, u16, i32, u32, i64, u64, f32, f64, tb /*bool*/, tz /*size_t*/, TY_N };
inline const char *const ty_name[] = {"i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64", "b", "z"};
inline const int ty_size[] = {1, 1, 2, 2, 4, 4, 8, 8, 4, 8, 1, 8};
template<class T> struct ty_of;
#define SIM_TY(C, E) template<> struct ty_of<C> { static constexpr Ty v = E; };
SIM_TY(std::int8_t, i8) SIM_TY(std::uint8_t, u8) SIM_TY(std::int16_t, i16) SIM_TY(std::uint16_t, u16)
SIM_TY(std::int32_t, i32) SIM_TY(std::uint32_t, u32) SIM_TY(std::int64_t, i64) SIM_TY(std::uint64_t, u64)
SIM_TY(float, f32) SIM_TY(double, f64) SIM_TY(bool, tb) SIM_TY(long long, i64)
#undef SIM_TY
inline double wide(double x) {           // the same magnitude with low bits a narrower type cannot hold
	std::uint64_t u; std::memcpy(&u, &x, 8);
	if ((u << 1) && (u >> 52 & 2047) != 2047) u ^= 0x1234567;
	std::memcpy(&x, &u, 8); return x;
}
constexpr int MAXLANES = 64, RAW = 640;
struct IO {                       // one kind of value in one shape
	int sz = 0;                    // size of the object representation (0: kind not available)
	Ty ty = i8;                    // lane type of the flat array
	int n = 0;
	void (*to)(const void *raw, void *lanes) = nullptr;
	void (*from)(const void *lanes, void *raw) = nullptr;
};
struct Shape { const char *name; const char *abi; Ty t; int n; IO v, m, i; };
using RunFn = void (*)(const void *const *in, void *const *out);
struct Entry { int op; const Shape *shape; RunFn run; IO out[2]; };
struct EntryNode { Entry e; EntryNode *next; };
struct ShapeNode { Shape s; ShapeNode *next; };
extern EntryNode *entries;
extern ShapeNode *shapes;

// memory transfer entries: in[0] mask object; out[0] memory, out[1] register object
struct MemEntry { const char *name; const Shape *shape; bool store, masked, maskobj, ctor; Ty mem; int align; RunFn run; };
struct MemNode { MemEntry e; MemNode *next; };
extern MemNode *mem_entries;
}
