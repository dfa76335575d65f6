// Callbacks owned by the simulator: every invocation is logged and checked, results and exceptions are the scenario's
// choice, callbacks re-enter the library and handlers interrupt it between instructions.
#include "alt.hpp"
#include "cb.hpp"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
namespace sim {
CbNode *cb_entries;
namespace {
std::vector<const CbEntry *> all; std::map<std::string, int> index_;
struct Shm { Stats st; int kind; char msg[2000]; std::uint64_t hash, calls, thrown, reent, handlers, seen[128]; int nseen; };
Shm *sh; bool have_avx;
struct Call { int e; std::uint64_t seed; int vals, flags; long thr; struct N { long at; int kind; std::uint64_t call; int e; std::uint64_t seed; int vals; }; std::vector<N> ev; };
enum { DIRTY = 1, STEP = 2, CLOBBER = 4 };
[[noreturn]] void bad(const std::string &m) { if (!sh->kind) { sh->kind = 1; std::snprintf(sh->msg, sizeof sh->msg, "%s", m.c_str()); } _exit(7); }
struct Ctx {
	const Call *c; const CbEntry *e; int depth; Ctx *outer; long insn = 0, count = 0; std::size_t next_i = 0, next_c = 0; std::vector<std::uint64_t> live; std::vector<int> seen; std::vector<std::uint64_t> given; Rng r{0}; bool threw = false, tf = false; const void *key = nullptr; int z = 0;
};
Ctx *cur; bool in_sim;
std::string name(const Ctx &c) { return std::string(c.e->name) + " " + c.e->shape->name + (c.depth ? " (nested)" : ""); }
std::uint64_t value(Rng &r, int vals, Ty t, std::uint64_t n) {
	// tokens told apart by their bits; bit patterns may be zeros, NaN, extremes; vals: 0 distinct, 1 few distinct, 2 extremes
	std::uint64_t v = 0; unsigned char b[8] = {}; int z = t == tb ? 1 : ty_size[t];
	if (t == tb) return r.below(2);
	if (vals == 0) { v = n * 0x9e3779b97f4a7c15ull + 12345; if (z == 1) v = n * 7 + 3; }
	else if (vals == 1) v = r.below(2) ? 0 : 0x4000400040004040ull;
	else { gen_lane(r, t, dom_any, 0, b); std::memcpy(&v, b, 8); }
	if (t == f32) { std::uint32_t x = std::uint32_t(v); if ((x & 0x7f800000) == 0x7f800000) x |= 0x7fffff & 0x400000; v = x; }       // no signalling NaN
	if (t == f64 && (v & 0x7ff0000000000000ull) == 0x7ff0000000000000ull) v |= 0x8000000000000ull;
	return z == 8 ? v : v & ((1ull << 8 * z) - 1);
}
void run_call(const Call &c, int depth);
void nested(const Call::N &n, int depth) { Call q{n.e, n.seed, n.vals, 0, -1, {}}; run_call(q, depth); }
void on_trap(int, siginfo_t *, void *u) {
	auto *uc = static_cast<ucontext_t *>(u); Ctx *c = cur;
	if (!c) { uc->uc_mcontext.gregs[REG_EFL] &= ~0x100ll; return; }
	if (in_sim) { uc->uc_mcontext.gregs[REG_EFL] &= ~0x100ll; return; }        // the simulator itself runs at full speed
	++c->insn; ++sh->st.insns; if (c->insn > 400000) bad("no-progress: " + name(*c));
	while (c->next_i < c->c->ev.size()) {
		auto &n = c->c->ev[c->next_i]; if (n.kind != 0) { ++c->next_i; continue; } if (n.at > c->insn) break;
		++c->next_i; if (c->depth == 0) { sh->handlers++; in_sim = true; nested(n, 1); in_sim = false; cur = c; }
	}
}
char sigstk[65536];
void on_crash(int sig, siginfo_t *, void *) { if (!sh->kind) { sh->kind = 2; std::snprintf(sh->msg, sizeof sh->msg, "no-result: signal %d: %s", sig, cur ? name(*cur).c_str() : "between calls"); } _exit(8); }
void clobber() {
	alignas(64) static unsigned char b[512]; Rng r(cur->r.next()); fill_dirty(r.next(), b);
	if (have_avx) asm volatile("vmovups (%0),%%ymm0\n\tvmovups 32(%0),%%ymm1\n\tvmovups 64(%0),%%ymm2\n\tvmovups 96(%0),%%ymm3\n\tvmovups 128(%0),%%ymm4\n\tvmovups 160(%0),%%ymm5\n\tvmovups 192(%0),%%ymm6\n\tvmovups 224(%0),%%ymm7\n\tvmovups 256(%0),%%ymm8\n\tvmovups 288(%0),%%ymm9\n\tvmovups 320(%0),%%ymm10\n\tvmovups 352(%0),%%ymm11\n\tvmovups 384(%0),%%ymm12\n\tvmovups 416(%0),%%ymm13\n\tvmovups 448(%0),%%ymm14\n\tvmovups 480(%0),%%ymm15" :: "r"(b) : "memory", "xmm0", "xmm1", "xmm2", "xmm3", "xmm4", "xmm5", "xmm6", "xmm7", "xmm8", "xmm9", "xmm10", "xmm11", "xmm12", "xmm13", "xmm14", "xmm15");
}
// leaving the simulator resumes single-stepping, except while an exception unwinds (the unwinder is not under test)
struct Guard { bool o = in_sim; Guard() { in_sim = true; } ~Guard() { in_sim = o; if (!o && cur && cur->tf && !std::uncaught_exceptions()) asm volatile("lea -128(%%rsp),%%rsp\n\tpushfq\n\torq $0x100,(%%rsp)\n\tpopfq\n\tlea 128(%%rsp),%%rsp" ::: "memory", "cc"); } };
void enter() {                                   // faults at this invocation: re-entrant library calls, clobbered registers
	Ctx *c = cur; sh->calls++;
	for (auto &n : c->c->ev) if (n.kind == 1 && c->depth == 0 && long(n.at) == c->count) { sh->reent++; nested(n, 1); cur = c; }
	++c->count;
	if (c->c->flags & CLOBBER) clobber();
}
struct alignas(64) Raw { unsigned char b[RAW]; };
void run_call(const Call &c, int depth) {
	Guard g; const CbEntry *e = all[c.e]; const Shape *s = e->shape; const IO &io = e->mask ? s->m : s->v; int n = s->n, z = ty_size[io.ty];
	Ctx x{&c, e, depth, cur}; x.r = Rng(c.seed); x.z = z; x.seen.assign(n, 0); x.given.assign(n, 0);
	Raw a, a0, o; alignas(64) unsigned char lanes[RAW]; fill_dirty(c.seed, a.b); std::memset(a.b + 512, 0x77, RAW - 512); fill_dirty(c.seed + 1, o.b); std::memset(o.b + 512, 0x77, RAW - 512);
	if (e->reduce) { for (int i = 0; i < n; ++i) { std::uint64_t v = value(x.r, c.vals, s->t, i); std::memcpy(lanes + i * z, &v, z); x.live.push_back(v); } Raw k = a; io.from(lanes, a.b); for (int i = n * z; i < io.sz; ++i) a.b[i] = k.b[i]; }
	std::memcpy(a0.b, a.b, RAW); Raw o0 = o; std::uint64_t id = 0; int token; x.key = &token;
	const void *in[2] = {a.b, &token}; void *out[2] = {o.b, &id};
	CallEnv env{}; env.mx_in = 0x1f80; env.avx = have_avx; alignas(64) unsigned char db[512]; if (c.flags & DIRTY) { fill_dirty(c.seed, db); env.dirty = db; sh->st.dirty++; if (!depth) scribble(c.seed); }
	bool hnd = false; for (auto &q : c.ev) hnd |= q.kind == 0; env.tf = x.tf = hnd || (c.flags & STEP);
	sh->st.calls++; if (sh->nseen < 128) sh->seen[sh->nseen++] = mix(mix(mix(c.e, c.flags), c.thr + 1), mix(c.vals * 4 + depth, c.ev.size()));
	cur = &x; in_sim = false; asm volatile("" ::: "memory"); sim_call(e->run, in, out, &env); in_sim = true; cur = x.outer;
	for (int i = io.sz; i < RAW; ++i) if (!e->reduce && o.b[i] != o0.b[i]) bad("outside: byte past the constructed object changed: " + name(x));
	if (!e->reduce) {
		for (int i = 0; i < n; ++i) if (x.seen[i] != 1) bad("invocations: generator called " + std::to_string(x.seen[i]) + " times for index " + std::to_string(i) + ": " + name(x));
		io.to(o.b, lanes);
		for (int i = 0; i < n; ++i) if (std::memcmp(lanes + i * z, &x.given[i], z)) bad("lane: lane " + std::to_string(i) + " is " + lane_str(io.ty, lanes + i * z) + ", the generator returned " + lane_str(io.ty, reinterpret_cast<unsigned char *>(&x.given[i])) + ": " + name(x));
		sh->hash = hash_bytes(sh->hash, lanes, n * z);
	} else {
		if (std::memcmp(a.b, a0.b, RAW)) bad("operand: the reduced vector changed: " + name(x));
		bool due = c.thr >= 0 && c.thr < n - 1;
		if (due) {
			if (id != c.seed + 1000 || !x.threw) bad("exception: thrown by invocation " + std::to_string(c.thr) + " but did not reach the caller: " + name(x));
			if (x.count != c.thr + 1) bad("exception: " + std::to_string(x.count) + " invocations, threw at " + std::to_string(c.thr) + ": " + name(x));
		} else {
			if (x.count != n - 1) bad("invocations: " + std::to_string(x.count) + " combinations of " + std::to_string(n) + " lanes: " + name(x));
			std::uint64_t v = 0; std::memcpy(&v, o.b, z);
			if (x.live.size() != 1 || x.live[0] != v) bad("result: not the last combination: " + name(x));
			sh->hash = mix(sh->hash, v);
		}
	}
	sh->st.model++; sh->hash = mix(mix(sh->hash, x.insn), x.count);
}
bool parse(const std::string &t, std::vector<Call> &v) {
	std::istringstream in(t);
	for (std::string line; std::getline(in, line);) {
		std::istringstream i(line); std::string w, a, b; i >> w;
		if (w == "call") { Call c{}; i >> a >> b >> std::hex >> c.seed >> std::dec >> c.vals >> c.flags >> c.thr; auto q = index_.find(a + " " + b); if (q == index_.end()) return false; c.e = q->second; v.push_back(c); }
		else if (w == "handler-at" || w == "reenter-at") { Call::N n{}; n.kind = w == "reenter-at"; i >> n.at >> a >> b >> std::hex >> n.seed >> std::dec >> n.vals; auto q = index_.find(a + " " + b); if (q == index_.end()) return false; n.e = q->second; if (!v.empty()) v.back().ev.push_back(n); }
	}
	for (auto &x : v) std::stable_sort(x.ev.begin(), x.ev.end(), [](auto &a, auto &b) { return a.at < b.at; });
	return true;
}
[[noreturn]] void child(const std::vector<Call> &v) {
	stack_t ss{}; ss.ss_sp = sigstk; ss.ss_size = sizeof sigstk; sigaltstack(&ss, nullptr);
	struct sigaction a{}; a.sa_sigaction = on_trap; a.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGTRAP, &a, nullptr);
	a.sa_sigaction = on_crash; a.sa_flags = SA_SIGINFO | SA_ONSTACK; for (int g : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM}) sigaction(g, &a, nullptr);
	alarm(20); std::freopen("/dev/null", "w", stderr);
	for (auto &c : v) run_call(c, 0);
	_exit(0);
}
struct CbWorld : AltWorld {
	std::uint64_t calls = 0, thrown = 0, reent = 0, handlers = 0; std::vector<std::uint8_t> hit;
	std::string gen(Rng &r) override {
		std::ostringstream o; o << "scenario\n"; int n = 2 + int(r.below(7));
		for (int k = 0; k < n; ++k) {
			const CbEntry *e = all[r.below(all.size())]; int N = e->shape->n; long thr = e->reduce && r.below(3) == 0 ? long(r.below(N)) : -1; int fl = int(r.below(8));
			o << "  call " << e->name << ' ' << e->shape->name << ' ' << std::hex << (r.next() >> 8) << std::dec << ' ' << r.below(3) << ' ' << fl << ' ' << thr << '\n';
			for (int q = int(r.below(3)); q--;) { const CbEntry *m = r.below(2) ? e : all[r.below(all.size())]; bool h = thr < 0 && r.below(2); o << (h ? "  handler-at " : "  reenter-at ") << (h ? 4 + r.below(300) : r.below(N)) << ' ' << m->name << ' ' << m->shape->name << ' ' << std::hex << (r.next() >> 8) << std::dec << ' ' << r.below(3) << '\n'; }
		}
		return o.str();
	}
	Outcome exec(const std::string &t, Stats &st) override {
		Outcome o; std::vector<Call> v; if (!parse(t, v)) { o.kind = 9; o.msg = "unknown call"; return o; }
		std::memset(static_cast<void *>(sh), 0, sizeof *sh);
		pid_t p = fork(); if (!p) child(v);
		int w; while (waitpid(p, &w, 0) < 0 && errno == EINTR) {}
		st.runs++; st.calls += sh->st.calls; st.insns += sh->st.insns; st.dirty += sh->st.dirty; st.model += sh->st.model; calls += sh->calls; thrown += sh->thrown; reent += sh->reent; handlers += sh->handlers; st.intr += sh->handlers; st.injected += sh->thrown + sh->reent;
		for (auto &x : v) hit[x.e] = 1; for (int i = 0; i < sh->nseen; ++i) states[sh->seen[i]]++;
		o.hash = mix(mix(sh->hash, sh->st.insns), sh->calls);
		if (sh->kind) { o.kind = sh->kind; o.msg = sh->msg; o.hash = mix(o.hash, o.kind); }
		else if (!WIFEXITED(w) || WEXITSTATUS(w)) { o.kind = 2; o.msg = "no-result: simulated process ended abnormally, status " + std::to_string(w); }
		return o;
	}
	std::string extra() override {
		std::ostringstream j; int h = 0; for (auto x : hit) h += x;
		j << ", \"entries\": " << all.size() << ", \"entries_hit\": " << h << ", \"callbacks\": " << calls << ", \"exceptions\": " << thrown << ", \"reentries\": " << reent; return j.str();
	}
};
}
AltWorld *alt_world(const std::string &prop) {
	if (prop != "S13") return nullptr;
	static CbWorld w;
	for (auto *n = cb_entries; n; n = n->next) all.push_back(&n->e);
	std::sort(all.begin(), all.end(), [](auto a, auto b) { int c = std::strcmp(a->name, b->name); return c ? c < 0 : std::strcmp(a->shape->name, b->shape->name) < 0; });
	for (std::size_t i = 0; i < all.size(); ++i) index_[std::string(all[i]->name) + " " + all[i]->shape->name] = int(i);
	sh = static_cast<Shm *>(mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	have_avx = __builtin_cpu_supports("avx"); w.hit.assign(all.size(), 0); return &w;
}
}
using namespace sim;
extern "C" void sim_key(const void *key) { Guard g; if (!cur || key != cur->key) bad("callable: the caller's function object lost its state: " + (cur ? name(*cur) : std::string())); }
extern "C" void sim_gen(std::size_t i, void *val) {
	Guard g; Ctx *c = cur; enter();
	if (i >= c->seen.size()) bad("invocations: generator called for index " + std::to_string(i) + ": " + name(*c));
	c->seen[i]++; std::uint64_t v = value(c->r, c->c->vals, c->e->mask ? tb : c->e->shape->t, i); c->given[i] = v; std::memcpy(val, &v, c->z);
}
extern "C" void sim_red(const void *a, const void *b, void *r) {
	Guard g; Ctx *c = cur; enter();
	for (const void *p : {a, b}) {
		std::uint64_t v = 0; std::memcpy(&v, p, c->z); auto q = std::find(c->live.begin(), c->live.end(), v);
		if (q == c->live.end()) bad("consumed: invocation " + std::to_string(c->count - 1) + " combines a value that is no lane and no pending result: " + name(*c));
		c->live.erase(q);
	}
	if (c->count - 1 == c->c->thr) { c->threw = true; sh->thrown++; throw CbError{c->c->seed + 1000}; }
	std::uint64_t v = value(c->r, c->c->vals, c->e->shape->t, 64 + c->count); std::memcpy(r, &v, c->z); c->live.push_back(v);
}
