// Simulated memory: transfers run against an arena of pages whose access rights, neighbouring writers and
// interrupting handlers the scenario decides; an array model of the arena is checked after every transfer.
#include "alt.hpp"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
namespace sim {
namespace {
constexpr int PG = 4096, NP = 8, SIZE = PG * NP;
unsigned char *const arena = reinterpret_cast<unsigned char *>(0x520000010000), *const alias = reinterpret_cast<unsigned char *>(0x530000010000);
std::vector<const MemEntry *> all; std::map<std::string, int> index_;
struct Shm { Stats st; int kind; char msg[2000]; std::uint64_t hash, writes, storms, demand, nested, strict, boundary, empty, seen[128]; int nseen; };
Shm *sh; bool have_avx;
struct Ev { long at; int kind; long off; int val; int e; std::uint64_t seed, mask; };     // 0 write, 1 nested transfer
struct Xfer { int e; long off; std::uint64_t seed, mask; int flags; std::vector<Ev> ev; };
enum { LAZY = 1, STORM = 2, DIRTY = 4 };
[[noreturn]] void bad(const std::string &m) { if (!sh->kind) { sh->kind = 1; std::snprintf(sh->msg, sizeof sh->msg, "%s", m.c_str()); } _exit(7); }
// ------------------------------------------------------------------ scalar model of one element conversion
template<class A, class B> void cv(const void *a, void *b) { A x; std::memcpy(&x, a, sizeof x); B y = static_cast<B>(x); std::memcpy(b, &y, sizeof y); }
template<class A> void cv1(Ty to, const void *a, void *b) {
	switch (to) { case i8: cv<A, std::int8_t>(a, b); break; case u8: cv<A, std::uint8_t>(a, b); break; case i16: cv<A, std::int16_t>(a, b); break; case u16: cv<A, std::uint16_t>(a, b); break; case i32: cv<A, std::int32_t>(a, b); break;
	case u32: cv<A, std::uint32_t>(a, b); break; case i64: cv<A, std::int64_t>(a, b); break; case u64: cv<A, std::uint64_t>(a, b); break; case f32: cv<A, float>(a, b); break; case f64: cv<A, double>(a, b); break; default: cv<A, bool>(a, b); }
}
void conv(Ty from, Ty to, const void *a, void *b) {
	if (from == to) { std::memcpy(b, a, ty_size[to]); return; }
	switch (from) { case i8: cv1<std::int8_t>(to, a, b); break; case u8: cv1<std::uint8_t>(to, a, b); break; case i16: cv1<std::int16_t>(to, a, b); break; case u16: cv1<std::uint16_t>(to, a, b); break; case i32: cv1<std::int32_t>(to, a, b); break;
	case u32: cv1<std::uint32_t>(to, a, b); break; case i64: cv1<std::int64_t>(to, a, b); break; case u64: cv1<std::uint64_t>(to, a, b); break; case f32: cv1<float>(to, a, b); break; case f64: cv1<double>(to, a, b); break; default: cv1<bool>(to, a, b); }
}
bool same(Ty t, bool exact, const void *a, const void *b) { return exact ? !std::memcmp(a, b, ty_size[t]) : lane_eq(t, cmp_bits, a, b); }
// ------------------------------------------------------------------ execution state (in the child)
unsigned char model[SIZE]; int prot[NP];
struct Run { const Xfer *x; const MemEntry *e; long insn = 0; std::size_t next = 0; std::vector<unsigned char> touched; long lo, hi; bool need[NP]; int right; bool lazy, storm; Rng r{0}; Run *outer; };
Run *cur;
void protect(int p, int v) { if (prot[p] != v) { mprotect(arena + p * PG, PG, v); prot[p] = v; } }
void poke(long off, unsigned char v) { alias[off] = v; model[off] = v; }
std::string name(const Run &r) { return std::string(r.e->name) + " " + r.e->shape->name + " at page offset " + std::to_string(r.x->off % PG) + (r.outer ? " (handler)" : "") + (r.e->masked ? ", mask " + std::to_string(r.x->mask) : ""); }
void transfer(const Xfer &x, Run *outer);
void on_trap(int, siginfo_t *, void *u) {
	auto *uc = static_cast<ucontext_t *>(u); Run *c = cur;
	if (!c) { uc->uc_mcontext.gregs[REG_EFL] &= ~0x100ll; return; }
	++c->insn; ++sh->st.insns;
	if (c->insn > 100000) bad("no-progress: transfer still running: " + name(*c));
	if (c->storm) {
		for (int k = 0; k < 24; ++k) { long o = c->lo - 40 + long(c->r.below(c->hi - c->lo + 80)); if (o >= 0 && o < SIZE && !c->touched[o]) { poke(o, static_cast<unsigned char>(c->r.next())); sh->storms++; } }
		for (long o = c->lo; o < c->hi; ++o) if (!c->touched[o] && c->r.below(2)) poke(o, static_cast<unsigned char>(c->r.next()));
	}
	while (c->next < c->x->ev.size() && c->x->ev[c->next].at <= c->insn) {
		const Ev &v = c->x->ev[c->next++]; long o;
		if (v.kind == 0) { o = c->lo + v.off; if (o >= 0 && o < SIZE && !c->touched[o]) { poke(o, static_cast<unsigned char>(v.val)); sh->writes++; } }
		else if (!c->outer) {
			const MemEntry *e = all[v.e]; long z = ty_size[e->mem] * e->shape->n; if (v.off < 0 || v.off + z > SIZE || v.off % e->align) continue;
			bool clash = false; for (long q = v.off; q < v.off + z; ++q) clash |= c->touched[q];
			if (clash) continue;
			Xfer n{v.e, v.off, v.seed, v.mask, 0, {}}; int keep[NP]; std::memcpy(keep, prot, sizeof keep); sh->nested++;
			transfer(n, c);
			for (int p = 0; p < NP; ++p) protect(p, keep[p]);
			cur = c;
		}
	}
}
char sigstk[65536];
void on_segv(int sig, siginfo_t *si, void *) {
	Run *c = cur; auto *a = static_cast<unsigned char *>(si->si_addr); long o = a - arena;
	if (sig == SIGSEGV && c && o >= 0 && o < SIZE && c->need[o / PG] && prot[o / PG] != c->right) { sh->demand++; protect(int(o / PG), c->right); return; }
	if (c && sig == SIGSEGV && o >= -PG && o < SIZE + PG) bad("page-access: page " + std::to_string((o + PG) / PG - 1) + " holds no selected element but was accessed (instruction " + std::to_string(c->insn) + "): " + name(*c));
	if (!sh->kind) { sh->kind = 2; std::snprintf(sh->msg, sizeof sh->msg, "no-result: signal %d: %s", sig, c ? name(*c).c_str() : "between transfers"); }
	_exit(8);
}
struct alignas(64) Raw { unsigned char b[RAW]; };
void transfer(const Xfer &x, Run *outer) {
	const MemEntry *e = all[x.e]; const Shape *s = e->shape; const IO &io = e->maskobj ? s->m : s->v; int n = s->n, z = ty_size[e->mem], lz = ty_size[io.ty];
	Rng g(x.seed); Run r; r.x = &x; r.e = e; r.outer = outer; r.lo = x.off; r.hi = x.off + long(n) * z; r.lazy = x.flags & LAZY; r.storm = x.flags & STORM; r.r = Rng(g.next()); r.right = e->store ? PROT_READ | PROT_WRITE : PROT_READ;
	r.touched.assign(SIZE, 0); std::memset(r.need, 0, sizeof r.need); bool exact = e->mem == io.ty; bool any = false;
	auto sel = [&](int i) { return !e->masked || (x.mask >> i & 1); };
	for (int i = 0; i < n; ++i) if (sel(i)) { any = true; for (int k = 0; k < z; ++k) { r.touched[x.off + i * z + k] = 1; r.need[(x.off + i * z + k) / PG] = true; } }
	if (!any) sh->empty++;
	// operands
	alignas(64) unsigned char lanes[RAW], want[RAW]; Raw reg, reg0, mk; unsigned char mlanes[MAXLANES]; std::memset(lanes, 0, RAW);
	Dom ld = e->maskobj || exact ? dom_any : Dom(dom_cast_i8 + io.ty), sd = e->maskobj || exact ? dom_any : Dom(dom_cast_i8 + e->mem);
	for (int i = 0; i < n; ++i) { if (e->maskobj) lanes[i] = g.below(2); else gen_lane(g, io.ty, sd, 0, lanes + i * lz); }
	fill_dirty(g.next(), reg.b); std::memset(reg.b + 512, 0xa5, RAW - 512); std::memset(mk.b, 0, RAW); fill_dirty(g.next(), mk.b);
	for (int i = 0; i < MAXLANES; ++i) mlanes[i] = x.mask >> i & 1;
	Raw garb = reg; io.from(lanes, reg.b); s->m.from(mlanes, mk.b);
	if (!e->maskobj) for (int i = n * lz; i < io.sz; ++i) reg.b[i] = garb.b[i];          // padding lanes hold anything
	if (!e->store) for (int i = 0; i < n; ++i) { unsigned char v[8]; if (e->mem == tb) v[0] = g.below(2); else if (e->maskobj) v[0] = g.below(2) ? static_cast<unsigned char>(g.next()) : 0; else gen_lane(g, e->mem, ld, 0, v);
		for (int k = 0; k < z; ++k) if (!outer || !outer->touched[x.off + i * z + k]) poke(x.off + i * z + k, v[k]); }
	// expected outcome
	std::memcpy(want, lanes, RAW);
	if (!e->store) for (int i = 0; i < n; ++i) if (sel(i)) { if (e->maskobj) { bool b = false; for (int k = 0; k < z; ++k) b |= model[x.off + i * z + k]; want[i] = b; } else conv(e->mem, io.ty, model + x.off + i * z, want + i * lz); }
	for (int p = 0; p < NP; ++p) { if (r.need[p]) protect(p, r.lazy ? PROT_NONE : r.right); else { protect(p, PROT_NONE); sh->strict++; } }
	int npg = 0; for (bool b : r.need) npg += b; if (r.lo / PG != (r.hi - 1) / PG) sh->boundary++;
	std::memcpy(reg0.b, reg.b, RAW); CallEnv env{}; env.mx_in = 0x1f80; env.avx = have_avx; alignas(64) unsigned char db[512];
	if (x.flags & DIRTY) { fill_dirty(x.seed, db); env.dirty = db; sh->st.dirty++; if (!outer) scribble(x.seed); }
	env.tf = r.storm || !x.ev.empty() || outer; const void *in[1] = {mk.b}; void *out[2] = {arena + x.off, reg.b};
	sh->st.calls++; if (sh->nseen < 128) sh->seen[sh->nseen++] = mix(mix(mix(x.e, x.off % 64), x.flags * 4 + npg), (outer ? 2 : 0) + (e->masked ? x.mask & 0xff : 0) * 8);
	cur = &r; asm volatile("" ::: "memory"); sim_call(e->run, in, out, &env); cur = outer;
	while (r.next < x.ev.size()) ++r.next;
	// checks
	for (int i = io.sz; i < RAW; ++i) if (reg.b[i] != reg0.b[i]) bad("register: byte " + std::to_string(i) + " past the " + std::to_string(io.sz) + "-byte vector object changed: " + name(r));
	if (e->store && std::memcmp(reg.b, reg0.b, io.sz)) bad("register: a store changed its source: " + name(r));
	if (!e->store) {
		alignas(64) unsigned char got[RAW]; io.to(reg.b, got);
		for (int i = 0; i < n; ++i) if ((sel(i) || !e->ctor) && !same(io.ty, exact || !sel(i) || e->maskobj, got + i * lz, want + i * lz))
			bad("lane: lane " + std::to_string(i) + (sel(i) ? "" : " (not selected)") + " is " + lane_str(io.ty, got + i * lz) + ", model says " + lane_str(io.ty, want + i * lz) + ": " + name(r));
	} else for (int i = 0; i < n; ++i) if (sel(i)) {
		unsigned char v[8]; conv(io.ty, e->mem, lanes + i * lz, v);
		if (!same(e->mem, exact || e->maskobj, alias + x.off + i * z, v)) bad("memory: element " + std::to_string(i) + " is " + lane_str(e->mem, alias + x.off + i * z) + ", model says " + lane_str(e->mem, v) + ": " + name(r));
		std::memcpy(model + x.off + i * z, alias + x.off + i * z, z);
	}
	if (std::memcmp(alias, model, SIZE)) { long o = 0; while (o < SIZE && (alias[o] == model[o] || (outer && outer->touched[o]))) ++o; if (o < SIZE) bad("outside: byte " + std::to_string(o - x.off) + " relative to the buffer (length " + std::to_string(n * z) + ") is " + std::to_string(alias[o]) + ", should hold " + std::to_string(model[o]) + ": " + name(r)); }
	sh->st.model++; sh->hash = hash_bytes(mix(sh->hash, r.insn), reg.b, io.sz); sh->hash = hash_bytes(sh->hash, model + std::max(0l, x.off - 64), n * z + 64);
}
bool parse(const std::string &t, std::vector<Xfer> &v) {
	std::istringstream in(t);
	for (std::string line; std::getline(in, line);) {
		std::istringstream i(line); std::string w, a, b; i >> w;
		if (w == "xfer") { Xfer x{}; i >> a >> b >> x.off >> std::hex >> x.seed >> x.mask >> std::dec >> x.flags; auto q = index_.find(a + " " + b); if (q == index_.end()) return false; x.e = q->second; v.push_back(x); }
		else if (w == "write-at") { Ev e{}; i >> e.at >> e.off >> e.val; if (!v.empty()) v.back().ev.push_back(e); }
		else if (w == "handler-at") { Ev e{}; e.kind = 1; i >> e.at >> a >> b >> e.off >> std::hex >> e.seed >> e.mask >> std::dec; auto q = index_.find(a + " " + b); if (q == index_.end()) return false; e.e = q->second; if (!v.empty()) v.back().ev.push_back(e); }
	}
	for (auto &x : v) std::stable_sort(x.ev.begin(), x.ev.end(), [](auto &a, auto &b) { return a.at < b.at; });
	return true;
}
[[noreturn]] void child(const std::vector<Xfer> &v) {
	stack_t ss{}; ss.ss_sp = sigstk; ss.ss_size = sizeof sigstk; sigaltstack(&ss, nullptr);
	struct sigaction a{}; a.sa_sigaction = on_trap; a.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGTRAP, &a, nullptr);
	a.sa_sigaction = on_segv; a.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; for (int g : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM}) sigaction(g, &a, nullptr);
	alarm(20);
	int fd = memfd_create("arena", 0); if (fd < 0 || ftruncate(fd, SIZE)) _exit(9);
	if (mmap(arena - PG, SIZE + 2 * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) _exit(9);
	if (mmap(arena, SIZE, PROT_NONE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED || mmap(alias, SIZE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) _exit(9);
	close(fd); std::memset(prot, 0, sizeof prot); Rng f(v.empty() ? 1 : v[0].seed ^ 77);
	for (int i = 0; i < SIZE; i += 8) { auto q = f.next(); std::memcpy(model + i, &q, 8); std::memcpy(alias + i, &q, 8); }
	for (auto &x : v) transfer(x, nullptr);
	_exit(0);
}
struct MemWorld : AltWorld {
	std::uint64_t writes = 0, storms = 0, demand = 0, nested = 0, strict = 0, boundary = 0, empty = 0; std::vector<std::uint8_t> hit;
	long place(Rng &r, const MemEntry *e) {
		long z = ty_size[e->mem], len = z * e->shape->n, al = e->align, o; int p = 1 + int(r.below(NP - 1));
		switch (r.below(6)) { case 0: o = long(p) * PG - len; break; case 1: o = long(p) * PG; break; case 2: case 3: o = long(p) * PG - z * long(r.below(e->shape->n + 1)); break; case 4: o = r.below(2) ? 0 : SIZE - len; break; default: o = long(r.below(SIZE)); }
		o = o / al * al; if (o + len > SIZE) o = (SIZE - len) / al * al; return std::max(0l, o);
	}
	static std::uint64_t mask(Rng &r, int n) {
		std::uint64_t f = n >= 64 ? ~0ull : (1ull << n) - 1, m = r.next();
		switch (r.below(7)) { case 0: m = 0; break; case 1: m = ~0ull; break; case 2: m = 1ull << r.below(n); break; case 3: m = ~(1ull << r.below(n)); break; case 4: m = (1ull << r.below(n + 1 > 63 ? 63 : n + 1)) - 1; break; case 5: m = ~((1ull << r.below(n)) - 1); break; default:; }
		return m & f;
	}
	std::string gen(Rng &r) override {
		std::ostringstream o; o << "scenario\n"; int n = 2 + int(r.below(8));
		for (int k = 0; k < n; ++k) {
			const MemEntry *e = all[r.below(all.size())]; long off = place(r, e); int fl = int(r.below(8));
			o << "  xfer " << e->name << ' ' << e->shape->name << ' ' << off << ' ' << std::hex << (r.next() >> 8) << ' ' << mask(r, e->shape->n) << std::dec << ' ' << fl << '\n';
			if (r.below(2)) for (int q = 1 + int(r.below(6)); q--;) o << "  write-at " << 4 + r.below(60) << ' ' << long(r.below(ty_size[e->mem] * e->shape->n + 32)) - 16 << ' ' << r.below(256) << '\n';
			if (r.below(4) == 0) { const MemEntry *q = r.below(3) ? e : all[r.below(all.size())]; long z = ty_size[q->mem] * q->shape->n, al = q->align, oo = r.below(2) ? off + ty_size[e->mem] * e->shape->n : off - z; oo = r.below(3) ? (oo + al - 1) / al * al : place(r, q);
				o << "  handler-at " << 4 + r.below(60) << ' ' << q->name << ' ' << q->shape->name << ' ' << oo << ' ' << std::hex << (r.next() >> 8) << ' ' << mask(r, q->shape->n) << std::dec << '\n'; }
		}
		return o.str();
	}
	Outcome exec(const std::string &t, Stats &st) override {
		Outcome o; std::vector<Xfer> v; if (!parse(t, v)) { o.kind = 9; o.msg = "unknown transfer"; return o; }
		std::memset(static_cast<void *>(sh), 0, sizeof *sh);
		pid_t p = fork(); if (!p) child(v);
		int w; while (waitpid(p, &w, 0) < 0 && errno == EINTR) {}
		st.runs++; st.calls += sh->st.calls; st.insns += sh->st.insns; st.dirty += sh->st.dirty; st.model += sh->st.model;
		writes += sh->writes; storms += sh->storms; demand += sh->demand; nested += sh->nested; strict += sh->strict; boundary += sh->boundary; empty += sh->empty; st.injected += sh->writes + sh->storms + sh->demand + sh->nested + sh->strict;
		for (auto &x : v) hit[x.e] = 1; for (int i = 0; i < sh->nseen; ++i) states[sh->seen[i]]++;
		o.hash = mix(mix(sh->hash, sh->st.insns), sh->demand);
		if (sh->kind) { o.kind = sh->kind; o.msg = sh->msg; o.hash = mix(o.hash, o.kind); }
		else if (!WIFEXITED(w) || WEXITSTATUS(w)) { o.kind = 2; o.msg = "no-result: simulated process ended abnormally, status " + std::to_string(w); }
		return o;
	}
	std::string extra() override {
		std::ostringstream j; int h = 0; for (auto x : hit) h += x;
		j << ", \"entries\": " << all.size() << ", \"entries_hit\": " << h << ", \"neighbour_writes\": " << writes << ", \"storm_writes\": " << storms << ", \"demand_pages\": " << demand << ", \"nested_transfers\": " << nested << ", \"inaccessible_pages\": " << strict << ", \"page_straddling\": " << boundary << ", \"empty_masks\": " << empty;
		return j.str();
	}
};
}
AltWorld *alt_world(const std::string &prop) {
	if (prop != "S04" && prop != "S05") return nullptr;
	static MemWorld w;
	for (auto *n = mem_entries; n; n = n->next) all.push_back(&n->e);
	std::sort(all.begin(), all.end(), [](auto a, auto b) { int c = std::strcmp(a->name, b->name); return c ? c < 0 : std::strcmp(a->shape->name, b->shape->name) < 0; });
	for (std::size_t i = 0; i < all.size(); ++i) index_[std::string(all[i]->name) + " " + all[i]->shape->name] = int(i);
	sh = static_cast<Shm *>(mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	have_avx = __builtin_cpu_supports("avx"); w.hit.assign(all.size(), 0); return &w;
}
}
