#pragma once
#include "engine.hpp"
#include <map>
#include <memory>
namespace sim {
using Bytes = std::vector<unsigned char>;
struct Src { int reg = -1; Bytes lanes; };              // reg < 0: fresh lanes; else register of the operand's kind
struct Step;
struct Intr { long at = 0; std::shared_ptr<Step> step; };  // asynchronous handler entered after `at` instructions of the call
struct Step {
	const Entry *e = nullptr;
	std::vector<Src> in; int out[2] = {0, 0};
	std::uint64_t dirty = 0; std::uint32_t env = 0;        // garbage in dead registers/stack; FP environment (0: the thread's)
	int rel = -1; std::vector<int> map;                    // lane relation to an earlier step of the thread
	std::vector<Intr> intr; long kill = 0;                 // kill: the call is abandoned after this many instructions
};
struct Thread { const Shape *shape = nullptr; std::uint32_t mxcsr = 0x1f80; std::vector<Step> steps; };
struct Slice { int t; long q; };
// Life cycle: the library's static initialisers run before call number `boot` (order drawn from bseed, interrupted by bintr), its destructors before call number `fini`
struct Scenario { std::vector<Thread> threads; std::vector<Slice> sched; long boot = 0, fini = -1; std::uint64_t bseed = 0; std::vector<Intr> bintr; };
enum { MON_MODEL = 1, MON_ISO = 2, MON_ENV = 4, MON_REL = 8, MON_BOUND = 16, MON_INEXACT = 32 };
struct Profile {
	std::string name; unsigned mon = 0; std::vector<std::string> ops;   // empty: all
	int thr_lo = 1, thr_hi = 1, step_lo = 4, step_hi = 12, focus = 0;   // focus: number of distinct ops per run (0: any)
	int p_sched = 0, p_intr = 0, p_dirty = 0;                            // percent
	int envmode = 0;                                                     // 0 default, 1 rounding modes + FTZ/DAZ + preset flags, 2 preset flags only, 3 rounding modes + flags
	int p_reg = 0, p_rel = 0, p_special = 50; bool step_all = false; long bound = 0;
	std::vector<std::string> skip;
	bool any_domain = false; int p_kill = 0; bool life = false;
	int pool = 3, p_heavy = 0;                                          // distinct inputs per operation; threads that prefer operations with a body of their own
};
struct Finding { std::string id, prop, op, types, abis, configs, cls, text; };
std::string to_text(const Scenario &);
bool from_text(const std::string &, Scenario &, std::string &err);
Scenario generate(const Profile &, Rng &);
struct alignas(64) CallEnv { std::uint32_t mx_in, mx_out, tf, avx; const void *dirty; std::uint64_t rflags; };
extern "C" void sim_call(RunFn f, const void *const *in, void *const *out, CallEnv *e);     // the call trampoline (world.cpp)
void fill_dirty(std::uint64_t seed, unsigned char *p);                                      // 512 bytes of register garbage
void scribble(std::uint64_t seed); void clean_stack();
constexpr long BOUND = 200000;
struct Outcome { int kind = 0; std::string msg; std::uint64_t hash = 0; };   // kind 0 clean
struct Stats {
	std::uint64_t runs = 0, calls = 0, insns = 0, preempt = 0, intr = 0, dirty = 0, envs = 0, presets = 0, skipped = 0, iso = 0, rel = 0, model = 0, max_insn = 0, found = 0, ftz = 0, injected = 0, kills = 0, early = 0, late = 0, boot_intr = 0;
};
void world_init(const char *config, const std::vector<Finding> &);
Outcome execute(const Profile &, const Scenario &, Stats &);              // forks; the caller stays pristine
const Entry *find_entry(const std::string &op, const std::string &shape);
extern std::vector<const Entry *> all_entries; extern std::vector<const Shape *> all_shapes;
extern std::vector<std::uint8_t> entry_hit; extern std::map<std::uint64_t, int> states; extern std::map<std::string, std::uint64_t> finding_hits;
}
