// The simulated machine: simulated threads and asynchronous handlers run real library code one instruction at a
// time under the trap flag; the scenario decides every switch, every handler entry and every environment fault.
#include "world.hpp"
#include <algorithm>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cerrno>
#include <climits>
#include <csetjmp>
#include <linux/futex.h>
#include <pthread.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
extern "C" { using LifeInit = void (*)(); extern LifeInit __start_dpm_init[] __attribute__((weak)); extern LifeInit __stop_dpm_init[] __attribute__((weak)); extern LifeInit __start_dpm_fini[] __attribute__((weak)); extern LifeInit __stop_dpm_fini[] __attribute__((weak)); }
namespace sim {
// exit handlers registered while the simulator plays the life cycle (life.cpp wraps __cxa_atexit in such builds)
bool life_recording; struct LifeExit { void (*f)(void *); void *a; }; LifeExit life_exit[4096]; int life_exits; static bool prof_life;
static void life_finish() {
	while (life_exits > 0) { auto x = life_exit[--life_exits]; x.f(x.a); }
	for (auto *f = __stop_dpm_fini; f != __start_dpm_fini;) (*--f)();
}
EntryNode *entries_ref() { return entries; }
std::vector<const Entry *> all_entries; std::vector<const Shape *> all_shapes;
std::vector<std::uint8_t> entry_hit; std::map<std::uint64_t, int> states; std::map<std::string, std::uint64_t> finding_hits;
static std::map<std::string, const Shape *> shape_by; static std::map<std::pair<int, const Shape *>, int> entry_by;
static std::map<std::string, int> op_by; static std::string config; static std::vector<Finding> findings;
static std::vector<std::vector<int>> by_op; static std::map<const Shape *, std::vector<int>> by_shape;
static std::vector<std::uint64_t> finding_count;

const Entry *find_entry(const std::string &op, const std::string &shape) {
	auto o = op_by.find(op); auto s = shape_by.find(shape);
	if (o == op_by.end() || s == shape_by.end()) return nullptr;
	auto e = entry_by.find({o->second, s->second});
	return e == entry_by.end() ? nullptr : all_entries[e->second];
}
static int entry_index(const Entry *e) { return entry_by[{e->op, e->shape}]; }

// ------------------------------------------------------------------------------------------- shared record area
struct Rec {                           // one completed call
	int entry, thread, step, nested; std::uint32_t mxcsr; long insn; std::uint64_t dirty;
	std::uint32_t in_off[4], out_off[2];
};
struct Shared {
	Stats st; int kind; char msg[2000]; std::uint64_t hash, sched_hash; int nrec; int cur_entry, cur_thread, cur_step; std::uint32_t used;
	std::uint64_t fh[256]; int nstates; std::uint64_t state[256];
	Rec rec[512]; unsigned char data[1 << 20];
};
static Shared *sh;
struct Iso { int done; unsigned char out[2][RAW]; };
static Iso *iso_sh;
static std::map<std::uint64_t, std::pair<int, Bytes>> iso_cache;

static std::uint32_t put(const void *p, std::size_t n) {
	std::uint32_t o = sh->used; if (o + n > sizeof sh->data) return UINT32_MAX;
	std::memcpy(sh->data + o, p, n); sh->used += (n + 15) & ~15u; return o;
}
[[noreturn]] static void violate(const std::string &m) {
	if (!sh->kind) { sh->kind = 1; std::snprintf(sh->msg, sizeof sh->msg, "%s", m.c_str()); }
	_exit(7);
}

// ------------------------------------------------------------------------------------------- call trampoline
asm(R"(
	.text
	.globl sim_call
	.type sim_call,@function
sim_call:
	push %rbp
	mov %rsp,%rbp
	push %rbx
	push %r12
	and $-64,%rsp
	mov %rcx,%rbx
	mov %rdi,%rax
	mov %rsi,%rdi
	mov %rdx,%rsi
	mov 16(%rbx),%rdx
	test %rdx,%rdx
	je 2f
	cmpl $0,12(%rbx)
	je 1f
	vmovups (%rdx),%ymm0
	vmovups 32(%rdx),%ymm1
	vmovups 64(%rdx),%ymm2
	vmovups 96(%rdx),%ymm3
	vmovups 128(%rdx),%ymm4
	vmovups 160(%rdx),%ymm5
	vmovups 192(%rdx),%ymm6
	vmovups 224(%rdx),%ymm7
	vmovups 256(%rdx),%ymm8
	vmovups 288(%rdx),%ymm9
	vmovups 320(%rdx),%ymm10
	vmovups 352(%rdx),%ymm11
	vmovups 384(%rdx),%ymm12
	vmovups 416(%rdx),%ymm13
	vmovups 448(%rdx),%ymm14
	vmovups 480(%rdx),%ymm15
	jmp 3f
1:	movups (%rdx),%xmm0
	movups 32(%rdx),%xmm1
	movups 64(%rdx),%xmm2
	movups 96(%rdx),%xmm3
	movups 128(%rdx),%xmm4
	movups 160(%rdx),%xmm5
	movups 192(%rdx),%xmm6
	movups 224(%rdx),%xmm7
	movups 256(%rdx),%xmm8
	movups 288(%rdx),%xmm9
	movups 320(%rdx),%xmm10
	movups 352(%rdx),%xmm11
	movups 384(%rdx),%xmm12
	movups 416(%rdx),%xmm13
	movups 448(%rdx),%xmm14
	movups 480(%rdx),%xmm15
	jmp 3f
2:	cmpl $0,12(%rbx)
	je 4f
	vzeroall
	jmp 3f
4:	xorps %xmm0,%xmm0
	xorps %xmm1,%xmm1
	xorps %xmm2,%xmm2
	xorps %xmm3,%xmm3
	xorps %xmm4,%xmm4
	xorps %xmm5,%xmm5
	xorps %xmm6,%xmm6
	xorps %xmm7,%xmm7
	xorps %xmm8,%xmm8
	xorps %xmm9,%xmm9
	xorps %xmm10,%xmm10
	xorps %xmm11,%xmm11
	xorps %xmm12,%xmm12
	xorps %xmm13,%xmm13
	xorps %xmm14,%xmm14
	xorps %xmm15,%xmm15
3:	ldmxcsr (%rbx)
	cmpl $0,8(%rbx)
	je 5f
	pushfq
	orl $0x100,(%rsp)
	popfq
5:	call *%rax
	pushfq
	andq $-257,(%rsp)
	popfq
	stmxcsr 4(%rbx)
	pushfq
	popq 24(%rbx)
	cld
	movl $0x1f80,-4(%rsp)
	ldmxcsr -4(%rsp)
	cmpl $0,12(%rbx)
	je 6f
	vzeroupper
6:	lea -16(%rbp),%rsp
	pop %r12
	pop %rbx
	pop %rbp
	ret
	.size sim_call,.-sim_call
)");

// ------------------------------------------------------------------------------------------- threads and the baton
struct CallCtx { long insn = 0, kill = 0; sigjmp_buf *jb = nullptr; const std::vector<Intr> *intr = nullptr; std::size_t next = 0; bool all = false; int tid = 0, depth = 0; long bound = BOUND; };
struct TState {
	int turn = 0; bool done = false; long budget = 0; bool preemptible = false; pthread_t th; unsigned char *stack = nullptr;
	std::vector<Bytes> vreg, mreg, ireg, vmod, mmod, imod;   // raw representation and array model
	std::vector<int> rec_of_step;
};
static TState ts[8]; static int sched_turn; static CallCtx *cur; static const Scenario *scn; static const Profile *prof; static bool have_avx;
static void fwait(int *p) { while (!__atomic_load_n(p, __ATOMIC_ACQUIRE)) syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); __atomic_store_n(p, 0, __ATOMIC_RELAXED); }
static void fpost(int *p) { __atomic_store_n(p, 1, __ATOMIC_RELEASE); syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
static void yield_to_sched(int t) { CallCtx *c = cur; fpost(&sched_turn); fwait(&ts[t].turn); cur = c; }
static void resume(int t) { fpost(&ts[t].turn); fwait(&sched_turn); }

static void run_step(int tid, const Step &s, int idx, int depth);
// MON_BOUND: a call needs neither heap memory nor the operating system
static void needs_nothing(greg_t rip) {
	auto *p = reinterpret_cast<const unsigned char *>(rip);
	if ((p[0] == 0x0f && (p[1] == 0x05 || p[1] == 0x34)) || (p[0] == 0xcd && p[1] == 0x80)) violate("system-call: the call enters the operating system");
	static const greg_t heap[] = {greg_t(&malloc), greg_t(&calloc), greg_t(&realloc), greg_t(&aligned_alloc), greg_t(&posix_memalign), greg_t(static_cast<void *(*)(std::size_t)>(&::operator new)), greg_t(static_cast<void *(*)(std::size_t, std::align_val_t)>(&::operator new))};
	for (auto h : heap) if (rip == h) violate("allocation: the call allocates heap memory");
}
static void on_trap(int, siginfo_t *si, void *u) {
	auto *uc = static_cast<ucontext_t *>(u); CallCtx *c = cur;
	if (c && si->si_code <= 0) violate("assertion: the library asserted");              // raise() by a failed assertion, not a step
	if (!c) { uc->uc_mcontext.gregs[REG_EFL] &= ~0x100ll; return; }
	++c->insn; ++sh->st.insns;
	if (c->insn > c->bound) violate("no-progress: call still running after " + std::to_string(c->bound) + " instructions");
	if (prof->mon & MON_BOUND) needs_nothing(uc->uc_mcontext.gregs[REG_RIP]);
	TState &t = ts[c->tid];
	while (c->intr && c->next < c->intr->size() && (*c->intr)[c->next].at == c->insn) {
		const Step &s = *(*c->intr)[c->next++].step;
		sh->st.intr++; sh->sched_hash = mix(sh->sched_hash, std::uint64_t(c->insn) * 8 + 5);
		int e0 = sh->cur_entry, s0 = sh->cur_step;
		run_step(c->tid, s, -1, c->depth + 1);
		sh->cur_entry = e0; sh->cur_step = s0; cur = c;
	}
	if (t.budget > 0 && --t.budget == 0) {
		sh->st.preempt++; sh->sched_hash = mix(sh->sched_hash, (std::uint64_t(sh->cur_entry) << 32) + std::uint64_t(c->insn) * 8 + c->tid);
		if (sh->nstates < 256) sh->state[sh->nstates++] = mix(mix(sh->cur_entry, c->insn), c->tid);
		int e0 = sh->cur_entry, t0 = sh->cur_thread, s0 = sh->cur_step;
		yield_to_sched(c->tid);
		sh->cur_entry = e0; sh->cur_thread = t0; sh->cur_step = s0;
	}
	if (c->kill && c->insn >= c->kill) siglongjmp(*c->jb, 1);
	bool more = c->all || c->kill || t.budget > 0 || (c->intr && c->next < c->intr->size()) || t.preemptible;
	if (!more) uc->uc_mcontext.gregs[REG_EFL] &= ~0x100ll;
}
static char sigstk[65536];
static void on_crash(int sig, siginfo_t *si, void *u) {
	auto *uc = static_cast<ucontext_t *>(u); (void)si; (void)uc;
	if (!sh->kind) { sh->kind = 2; std::snprintf(sh->msg, sizeof sh->msg, "no-result: call died with signal %d (%s)", sig, strsignal(sig)); }
	_exit(8);
}
__attribute__((noinline)) void scribble(std::uint64_t seed) {
	volatile std::uint64_t b[2048]; Rng r(seed);
	std::uint64_t pat[8]; for (auto &p : pat) p = r.next();
	for (int i = 0; i < 2048; ++i) b[i] = pat[i & 7];
}
__attribute__((noinline)) void clean_stack() { volatile std::uint64_t b[2048]; for (int i = 0; i < 2048; ++i) b[i] = 0; }
void fill_dirty(std::uint64_t seed, unsigned char *p) {
	Rng r(seed ^ 0x5151);
	for (int i = 0; i < 512; i += 8) { std::uint64_t v = r.next(); if (r.below(4) == 0) v = ~0ull; if (r.below(4) == 0) v = 0x7ff8000000000000ull; std::memcpy(p + i, &v, 8); }
}
static std::string lanes_str(Ty t, const unsigned char *l, int n) {
	std::string s = "["; for (int i = 0; i < n; ++i) s += (i ? "," : "") + lane_str(t, l + i * ty_size[t]); return s + "]";
}
static const IO *in_io(const Entry *e, char k, IO &tmp) {
	const Shape *s = e->shape;
	if (k == 'V') return &s->v; if (k == 'M') return &s->m; if (k == 'I') return &s->i;
	tmp = IO{ty_size[s->t], s->t, 1, nullptr, nullptr}; return &tmp;
}
static bool finding_class(const std::string &c, const Entry *e, const unsigned char *const *in, int lane) {
	if (c == "any") return true;
	auto val = [&](int k) -> double { const char *ins = op_meta[e->op].ins; IO tmp; const IO *io = in_io(e, ins[k], tmp); int i = ins[k] == 'S' ? 0 : lane; const unsigned char *p = in[k] + i * ty_size[io->ty];
		if (io->ty == f32) { float f; std::memcpy(&f, p, 4); return f; } if (io->ty == f64) { double d; std::memcpy(&d, p, 8); return d; } std::int64_t v = 0; std::memcpy(&v, p, ty_size[io->ty]); int shf = 64 - 8 * ty_size[io->ty]; return double((v << shf) >> shf); };
	double x = val(0), ax = x < 0 ? -x : x, mn = e->shape->t == f32 ? 1.17549435e-38 : 2.2250738585072014e-308;
	if (c == "denormal") return ax < mn && x != 0;
	if (c == "naninf") return x != x || __builtin_isinf(x);
	if (c == "special") return x != x || __builtin_isinf(x) || (ax < mn && x != 0);
	if (c == "zero") return x == 0;
	if (c == "big31") return !(ax < 2147483648.0);
	if (c == "negzero") return x == 0;
	return false;
}
// Build options under which erroneous or NaN operands have no specified result (config suffix +p, +n): is this lane specified?
static bool specified(const Entry *e, const unsigned char *const *in, int lane, const unsigned char (*want)[RAW]) {
	static const int level = std::strstr(config.c_str(), "+p") ? 1 : std::strstr(config.c_str(), "+n") ? 2 : 0;
	if (!level) return true;
	const OpMeta &m = op_meta[e->op]; bool nan = false, inf = false, zero = false;
	auto fp = [](Ty t, const unsigned char *p) -> double { if (t == f32) { float f; std::memcpy(&f, p, 4); return f; } double d; std::memcpy(&d, p, 8); return d; };
	for (int k = 0; m.ins[k]; ++k) { IO tmp; const IO *io = in_io(e, m.ins[k], tmp); if (io->ty != f32 && io->ty != f64) continue; double x = fp(io->ty, in[k] + (io->n == 1 ? 0 : lane) * ty_size[io->ty]); nan |= x != x; inf |= bool(__builtin_isinf(x)); zero |= x == 0; }
	for (int k = 0; m.outs[k]; ++k) {
		Ty t = e->out[k].ty; if (m.outs[k] == 'M') continue;                       // classification and comparison have no erroneous operands
		if (t != f32 && t != f64) { if (nan || inf) return false; continue; }
		double w = fp(t, want[k] + lane * ty_size[t]), mn = t == f32 ? 1.17549435e-38 : 2.2250738585072014e-308;
		if (nan) { if (level == 2 || w == w) return false; continue; }
		if (inf || w != w || __builtin_isinf(w) || (w != 0 && (w < 0 ? -w : w) < mn)) return false;
		if (w == 0 && !zero) return false;                                         // underflow
	}
	return true;
}
static bool known(const Entry *e, const unsigned char *const *in, int lane) {
	const OpMeta &m = op_meta[e->op];
	auto has = [](const std::string &l, const std::string &x) { if (l == "*") return true; std::istringstream s(l); for (std::string q; std::getline(s, q, ',');) if (q == x) return true; return false; };
	for (std::size_t i = 0; i < findings.size(); ++i) {
		auto &f = findings[i];
		if (!f.op.empty() && has(f.op, m.name) && has(f.types, ty_name[e->shape->t]) && has(f.abis, e->shape->abi) && has(f.configs, config) && finding_class(f.cls, e, in, lane)) { if (i < 256) sh->fh[i]++; return true; }
	}
	return false;
}
static std::string describe(const Entry *e, const unsigned char *const *in, std::uint32_t mx) {
	const OpMeta &m = op_meta[e->op]; std::string s = std::string(m.name) + " " + e->shape->name + " (" + config + ", mxcsr=";
	char b[16]; std::snprintf(b, sizeof b, "%04x", mx); s += b; s += ")";
	for (int k = 0; m.ins[k]; ++k) { IO tmp; const IO *io = in_io(e, m.ins[k], tmp); s += " in" + std::to_string(k) + "=" + lanes_str(io->ty, in[k], io->n); }
	return s;
}
struct alignas(64) RawBuf { unsigned char b[RAW]; };
static std::uint32_t x87_state(std::uint32_t &tag) {
	struct { std::uint32_t cw, sw, tw, r[4]; } fe; asm volatile("fnstenv %0\n\tfldenv %0" : "+m"(fe)); tag = fe.tw & 0xffff; return fe.cw & 0xffff;
}
// ------------------------------------------------------------------------------------------- life cycle of the library
static long life_calls; static bool booted, finished;
static void boot_now(int tid) {                            // runs the static initialisers the simulator has taken over from the C runtime
	int n = int(__stop_dpm_init - __start_dpm_init); std::vector<int> o; for (int i = 0; i < n; ++i) o.push_back(i);
	Rng r(scn ? scn->bseed : 0); if (scn && scn->bseed) for (int i = n; i-- > 1;) std::swap(o[i], o[r.below(i + 1)]);
	life_recording = true;
	CallCtx cc; cc.tid = tid; cc.bound = 3000000; cc.intr = scn && !scn->bintr.empty() ? &scn->bintr : nullptr; CallCtx *prev = cur; cur = &cc;
	CallEnv env{}; env.mx_in = 0x1f80; env.avx = have_avx;
	for (int i : o) { env.tf = cc.intr && cc.next < cc.intr->size(); sim_call(reinterpret_cast<RunFn>(__start_dpm_init[i]), nullptr, nullptr, &env); }
	if (sh && cc.intr) sh->st.boot_intr += cc.next;
	cur = prev; booted = true;
}
static void life_tick(int tid) {
	if (!booted && life_calls >= scn->boot) boot_now(tid);
	if (booted && !finished && scn->fini >= 0 && life_calls >= scn->fini) { finished = true; life_finish(); }
	++life_calls; if (!booted) sh->st.early++; if (finished) sh->st.late++;
}
static void run_step(int tid, const Step &s, int idx, int depth) {
	if (depth == 0 && prof->life) life_tick(tid);
	const Entry *e = s.e; const OpMeta &m = op_meta[e->op]; TState &t = ts[tid];
	RawBuf raw[4], outraw[2]; unsigned char inl[4][RAW]; const void *inp[4]; void *outp[2]; const unsigned char *inlp[4]; IO tmp[4]; const IO *io[4];
	int nin = int(std::strlen(m.ins)), nout = int(std::strlen(m.outs));
	for (int k = 0; k < nin; ++k) {
		char kd = m.ins[k]; io[k] = in_io(e, kd, tmp[k]); inlp[k] = inl[k];
		const Src &q = s.in[k];
		if (q.reg >= 0 && kd != 'S' && depth == 0) {
			auto &rr = kd == 'V' ? t.vreg : kd == 'M' ? t.mreg : t.ireg; auto &mm = kd == 'V' ? t.vmod : kd == 'M' ? t.mmod : t.imod;
			std::memcpy(raw[k].b, rr[q.reg].data(), io[k]->sz); std::memcpy(inl[k], mm[q.reg].data(), io[k]->n * ty_size[io[k]->ty]);
		} else {
			std::memcpy(inl[k], q.lanes.data(), io[k]->n * ty_size[io[k]->ty]);
			if (s.dirty) fill_dirty(s.dirty + k, raw[k].b); else std::memset(raw[k].b, 0, RAW);
			if (io[k]->from) io[k]->from(inl[k], raw[k].b); else std::memcpy(raw[k].b, inl[k], io[k]->sz);
		}
		inp[k] = raw[k].b;
		int vp = 0; for (int q2 = 0; q2 < k; ++q2) vp += m.ins[q2] != 'M';
		if (kd != 'I') for (int i = 0; i < io[k]->n; ++i) if (!lane_ok(io[k]->ty, m.dom, vp, inl[k] + i * ty_size[io[k]->ty])) { sh->st.skipped++; return; }
		if (m.dom == dom_anymask && kd == 'M') { bool any = false; for (int i = 0; i < io[k]->n; ++i) any |= inl[k][i]; if (!any) { sh->st.skipped++; return; } }
	}
	std::uint32_t mx = s.env ? s.env : depth ? 0x1f80 : scn->threads[tid].mxcsr;
	alignas(64) unsigned char dirtybuf[512];
	CallEnv env{}; env.mx_in = mx; env.avx = have_avx; env.dirty = nullptr;
	for (int k = 0; k < nout; ++k) { if (s.dirty) fill_dirty(s.dirty + 7 + k, outraw[k].b); else std::memset(outraw[k].b, 0, RAW); outp[k] = outraw[k].b; }
	CallCtx cc; cc.tid = tid; cc.depth = depth; cc.intr = s.intr.empty() ? nullptr : &s.intr; cc.all = prof->step_all; if (prof->bound) cc.bound = prof->bound;
	if (s.dirty) { fill_dirty(s.dirty, dirtybuf); env.dirty = dirtybuf; sh->st.dirty++; if (!depth) scribble(s.dirty); } else if (!depth) clean_stack();
	bool step = cc.all || cc.intr || s.kill || t.budget > 0 || t.preemptible; env.tf = step;
	sh->cur_entry = entry_index(e); sh->cur_thread = tid; sh->cur_step = idx; sh->st.calls++;
	if (mx & 0x6000) sh->st.envs++; if (mx & 0x8040) sh->st.ftz++; if (mx & 0x3f) sh->st.presets++;
	std::uint32_t tag0, tag1, cw0 = x87_state(tag0);
	CallCtx *const prev = cur; sigjmp_buf jb;
	if (s.kill) {
		cc.kill = s.kill; cc.jb = &jb;
		if (sigsetjmp(jb, 0)) {                            // abandoned: no result; the caller goes on with a fresh control state
			std::uint32_t d = 0x1f80; asm volatile("fninit\n\tcld\n\tldmxcsr %0" ::"m"(d));
			cur = prev; sh->st.kills++; sh->hash = mix(mix(sh->hash, sh->cur_entry), 0xdead + cc.insn);
			if (sh->nstates < 256) sh->state[sh->nstates++] = mix(mix(sh->cur_entry, cc.insn), 77);
			return;
		}
	}
	cur = &cc;
	asm volatile("" ::: "memory");
	sim_call(e->run, inp, outp, &env);
	cur = prev;
	std::uint32_t cw1 = x87_state(tag1);
	if (cc.insn > long(sh->st.max_insn)) sh->st.max_insn = cc.insn;
	if (prof->mon & MON_ENV) {
		char b[300] = "";
		if ((env.mx_out & 0xffc0) != (mx & 0xffc0)) std::snprintf(b, sizeof b, "environment: control word changed %04x -> %04x", mx, env.mx_out);
		else if (mx & 0x3f & ~env.mx_out) std::snprintf(b, sizeof b, "environment: raised flags lost %02x -> %02x", mx & 0x3f, env.mx_out & 0x3f);
		else if (cw0 != cw1) std::snprintf(b, sizeof b, "environment: x87 control word changed %04x -> %04x", cw0, cw1);
		else if (tag1 != 0xffff) std::snprintf(b, sizeof b, "environment: x87/MMX register stack left in use, tag %04x", tag1);
		else if (env.rflags & 0x40400) std::snprintf(b, sizeof b, "environment: direction/alignment flag left set, rflags %llx", (unsigned long long)env.rflags);
		if (*b) violate(std::string(b) + ": " + describe(e, inlp, mx));
	}
	if (tag1 != 0xffff) asm volatile("emms");
	if ((prof->mon & MON_INEXACT) && !(mx & 0x20) && (env.mx_out & 0x20)) violate("inexact raised: " + describe(e, inlp, mx));
	// outputs
	unsigned char outl[2][RAW];
	for (int k = 0; k < nout; ++k) e->out[k].to(outraw[k].b, outl[k]);
	Rec *r = nullptr;
	if (sh->nrec < 512) {
		r = &sh->rec[sh->nrec]; if (depth == 0 && idx >= 0) t.rec_of_step[idx] = sh->nrec; sh->nrec++;
		r->entry = entry_index(e); r->thread = tid; r->step = idx; r->nested = depth; r->mxcsr = mx; r->insn = cc.insn; r->dirty = s.dirty;
		for (int k = 0; k < nin; ++k) r->in_off[k] = put(inl[k], io[k]->n * ty_size[io[k]->ty]);
		for (int k = 0; k < nout; ++k) r->out_off[k] = put(outl[k], e->out[k].n * ty_size[e->out[k].ty]);
	}
	if (sh->nstates < 256) {
		std::uint64_t q = mix(sh->cur_entry, (mx >> 13 & 3) | (mx & 0x8040) | (s.dirty ? 8 : 0) | (depth ? 16 : 0) | (mx & 0x3f ? 32 : 0));
		for (int k = 0; k < nin; ++k) q = mix(q, depth == 0 && s.in[k].reg >= 0 && m.ins[k] != 'S');
		sh->state[sh->nstates++] = q;
	}
	sh->hash = mix(mix(sh->hash, sh->cur_entry), env.mx_out);
	for (int k = 0; k < nout; ++k) sh->hash = hash_bytes(sh->hash, outl[k], e->out[k].n * ty_size[e->out[k].ty]);
	if (prof->mon & MON_MODEL) {
		RefFn rf = ref_fn[e->shape->t][e->op];
		if (rf) {
			unsigned char want[2][RAW]; void *wp[2] = {want[0], want[1]}; const void *ip[4]; for (int k = 0; k < nin; ++k) ip[k] = inl[k];
			std::uint32_t c = (mx & ~0x3fu) | 0x1f80, d = 0x1f80;
			asm volatile("ldmxcsr %0" ::"m"(c)); rf(e->shape->n, ip, wp); asm volatile("ldmxcsr %0" ::"m"(d));
			sh->st.model++;
			for (int k = 0; k < nout; ++k) for (int i = 0; i < e->out[k].n; ++i) {
				int z = ty_size[e->out[k].ty];
				if (!lane_eq(e->out[k].ty, m.cmp, outl[k] + i * z, want[k] + i * z)) {
					if (known(e, inlp, i) || !specified(e, inlp, i, want)) continue;
					violate("model: lane " + std::to_string(i) + " of result " + std::to_string(k) + " is " + lane_str(e->out[k].ty, outl[k] + i * z) + ", array model says " + lane_str(e->out[k].ty, want[k] + i * z) + ": " + describe(e, inlp, mx));
				}
			}
		}
	}
	if ((prof->mon & MON_REL) && s.rel >= 0 && depth == 0 && r && t.rec_of_step[s.rel] >= 0) {
		const Rec &q = sh->rec[t.rec_of_step[s.rel]]; sh->st.rel++;
		for (int k = 0; k < nout; ++k) {
			const IO &a = all_entries[q.entry]->out[k], &b = e->out[k]; int z = ty_size[b.ty];
			for (int i = 0; i < b.n && i < int(s.map.size()); ++i) if (s.map[i] >= 0 && s.map[i] < a.n) {
				const unsigned char *x = outl[k] + i * z, *y = sh->data + q.out_off[k] + s.map[i] * z;
				if (!lane_eq(b.ty, cmp_bits, x, y)) violate("lane-isolation: lane " + std::to_string(i) + " is " + lane_str(b.ty, x) + " but the same operand values in lane " + std::to_string(s.map[i]) + " of " + all_entries[q.entry]->shape->name + " gave " + lane_str(b.ty, y) + ": " + describe(e, inlp, mx));
			}
		}
	}
	if (depth == 0) for (int k = 0; k < nout; ++k) {
		char kd = m.outs[k]; if (kd != 'V' && kd != 'M' && kd != 'I') continue;
		auto &rr = kd == 'V' ? t.vreg : kd == 'M' ? t.mreg : t.ireg; auto &mm = kd == 'V' ? t.vmod : kd == 'M' ? t.mmod : t.imod;
		std::memcpy(rr[s.out[k]].data(), outraw[k].b, e->out[k].sz); std::memcpy(mm[s.out[k]].data(), outl[k], e->out[k].n * ty_size[e->out[k].ty]);
	}
}
static void *thread_main(void *p) {
	int tid = int(reinterpret_cast<std::intptr_t>(p)); TState &t = ts[tid];
	fwait(&t.turn);
	const Thread &th = scn->threads[tid];
	for (std::size_t i = 0; i < th.steps.size(); ++i) run_step(tid, th.steps[i], int(i), 0);
	t.done = true; fpost(&sched_turn);
	return nullptr;
}
static void child(const Profile &p, const Scenario &s) {
	scn = &s; prof = &p; life_recording = p.life;
	stack_t ss{}; ss.ss_sp = sigstk; ss.ss_size = sizeof sigstk; sigaltstack(&ss, nullptr);
	struct sigaction a{}; a.sa_sigaction = on_trap; a.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGTRAP, &a, nullptr);
	a.sa_sigaction = on_crash; a.sa_flags = SA_SIGINFO; for (int g : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM}) sigaction(g, &a, nullptr);
	alarm(20);
	int n = int(s.threads.size());
	static const std::size_t STK = 256 * 1024;
	auto *base = static_cast<unsigned char *>(mmap(reinterpret_cast<void *>(0x510000000000), STK * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
	for (int i = 0; i < n; ++i) {
		TState &t = ts[i]; const Shape *q = s.threads[i].shape;
		auto init = [&](std::vector<Bytes> &raw, std::vector<Bytes> &mod, const IO &io) {
			raw.assign(4, Bytes(RAW, 0)); mod.assign(4, Bytes(RAW, 0));
			if (io.from) for (auto &x : raw) { RawBuf b; std::memset(b.b, 0, RAW); io.from(mod[0].data(), b.b); std::memcpy(x.data(), b.b, RAW); }
		};
		init(t.vreg, t.vmod, q->v); init(t.mreg, t.mmod, q->m); init(t.ireg, t.imod, q->i);
		t.rec_of_step.assign(s.threads[i].steps.size(), -1);
		pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, base + STK * i, STK);
		if (pthread_create(&t.th, &at, thread_main, reinterpret_cast<void *>(std::intptr_t(i)))) _exit(9);
	}
	// per-thread slices still to come decide whether the thread must be traced at all
	std::vector<int> left(n, 0); for (auto &x : s.sched) if (x.t < n) left[x.t]++;
	for (auto &x : s.sched) {
		if (x.t >= n) continue;
		left[x.t]--; TState &t = ts[x.t]; if (t.done) continue;
		t.budget = x.q; t.preemptible = true; resume(x.t);
	}
	for (int i = 0; i < n; ++i) { ts[i].preemptible = false; }
	for (int i = 0; i < n; ++i) while (!ts[i].done) { ts[i].budget = 0; resume(i); }
	_exit(0);
}
static void iso_child(const Entry *e, const unsigned char *const *inl, std::uint32_t mx) {
	struct sigaction a{}; a.sa_handler = SIG_DFL; for (int g : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM}) sigaction(g, &a, nullptr);
	alarm(10);
	if (prof_life) { scn = nullptr; boot_now(0); }
	const OpMeta &m = op_meta[e->op]; RawBuf raw[4], outraw[2]; const void *inp[4]; void *outp[2]; int nin = int(std::strlen(m.ins)), nout = int(std::strlen(m.outs));
	for (int k = 0; k < nin; ++k) { IO tmp; const IO *io = in_io(e, m.ins[k], tmp); std::memset(raw[k].b, 0, RAW); if (io->from) io->from(inl[k], raw[k].b); else std::memcpy(raw[k].b, inl[k], io->sz); inp[k] = raw[k].b; }
	for (int k = 0; k < nout; ++k) { std::memset(outraw[k].b, 0, RAW); outp[k] = outraw[k].b; }
	CallEnv env{}; env.mx_in = mx; env.avx = have_avx; clean_stack();
	sim_call(e->run, inp, outp, &env);
	for (int k = 0; k < nout; ++k) e->out[k].to(outraw[k].b, iso_sh->out[k]);
	iso_sh->done = 1; _exit(0);
}
static void merge(Stats &a, const Stats &b) {
	a.runs++; a.calls += b.calls; a.insns += b.insns; a.preempt += b.preempt; a.intr += b.intr; a.dirty += b.dirty; a.envs += b.envs; a.presets += b.presets; a.skipped += b.skipped; a.rel += b.rel; a.model += b.model; a.ftz += b.ftz; a.kills += b.kills; a.early += b.early; a.late += b.late; a.boot_intr += b.boot_intr;
	if (b.max_insn > a.max_insn) a.max_insn = b.max_insn;
}
Outcome execute(const Profile &p, const Scenario &s, Stats &st) {
	Outcome o; prof_life = p.life;
	std::memset(static_cast<void *>(sh), 0, offsetof(Shared, rec));
	pid_t pid = fork(); if (pid == 0) child(p, s);
	int status; while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
	merge(st, sh->st);
	for (std::size_t i = 0; i < findings.size() && i < 256; ++i) if (sh->fh[i]) { finding_hits[findings[i].id] += sh->fh[i]; st.found += sh->fh[i]; }
	for (int i = 0; i < sh->nstates; ++i) states[sh->state[i]]++;
	if (sh->sched_hash) states[sh->sched_hash]++;
	o.hash = mix(mix(sh->hash, sh->sched_hash), sh->st.insns);
	auto where = [&] { return std::string(" at call ") + op_meta[all_entries[sh->cur_entry]->op].name + " " + all_entries[sh->cur_entry]->shape->name + " (" + config + ") thread " + std::to_string(sh->cur_thread) + " step " + std::to_string(sh->cur_step); };
	if (sh->kind) { o.kind = sh->kind; o.msg = sh->msg; if (o.kind == 2 || o.msg.rfind("no-progress", 0) == 0) o.msg += where(); o.hash = mix(o.hash, o.kind); return o; }
	if (!WIFEXITED(status) || WEXITSTATUS(status)) { o.kind = 2; o.msg = "no-result: simulated process ended abnormally, status " + std::to_string(status) + where(); return o; }
	for (int i = 0; i < sh->nrec; ++i) entry_hit[sh->rec[i].entry] = 1;
	if (p.mon & MON_ISO) for (int i = 0; i < sh->nrec; ++i) {
		const Rec &r = sh->rec[i]; const Entry *e = all_entries[r.entry]; const OpMeta &m = op_meta[e->op]; const unsigned char *inl[4]; bool full = false;
		std::uint64_t key = mix(r.entry, r.mxcsr & 0xffc0); int nin = int(std::strlen(m.ins)), nout = int(std::strlen(m.outs));
		for (int k = 0; k < nin; ++k) { IO tmp; const IO *io = in_io(e, m.ins[k], tmp); full |= r.in_off[k] == UINT32_MAX; inl[k] = sh->data + r.in_off[k]; if (!full) key = hash_bytes(key, inl[k], io->n * ty_size[io->ty]); }
		for (int k = 0; k < nout; ++k) full |= r.out_off[k] == UINT32_MAX;
		if (full) break;
		auto it = iso_cache.find(key);
		if (it == iso_cache.end()) {
			iso_sh->done = 0; pid_t q = fork(); if (q == 0) iso_child(e, inl, r.mxcsr & 0xffc0);
			int w; while (waitpid(q, &w, 0) < 0 && errno == EINTR) {}
			Bytes b; if (iso_sh->done) for (int k = 0; k < nout; ++k) b.insert(b.end(), iso_sh->out[k], iso_sh->out[k] + e->out[k].n * ty_size[e->out[k].ty]);
			if (iso_cache.size() > 200000) iso_cache.clear();
			it = iso_cache.emplace(key, std::make_pair(iso_sh->done, b)).first;
		}
		st.iso++;
		if (!it->second.first) { o.kind = 2; o.msg = "no-result: isolated call died: " + describe(e, inl, r.mxcsr); return o; }
		std::size_t off = 0;
		for (int k = 0; k < nout; ++k) for (int l = 0, z = ty_size[e->out[k].ty]; l < e->out[k].n; ++l, off += z) {
			const unsigned char *x = sh->data + r.out_off[k] + l * z, *y = it->second.second.data() + off;
			if (!lane_eq(e->out[k].ty, cmp_bits, x, y)) {
				o.kind = 3; o.msg = "not-isolated: lane " + std::to_string(l) + " of result " + std::to_string(k) + " is " + lane_str(e->out[k].ty, x) + ", the same call alone gives " + lane_str(e->out[k].ty, y) + ": thread " + std::to_string(r.thread) + (r.nested ? " (handler)" : "") + " step " + std::to_string(r.step) + " " + describe(e, inl, r.mxcsr);
				return o;
			}
		}
	}
	return o;
}
void world_init(const char *cfg, const std::vector<Finding> &f) {
	config = cfg; findings = f;
	for (auto *n = shapes; n; n = n->next) all_shapes.push_back(&n->s);
	std::sort(all_shapes.begin(), all_shapes.end(), [](auto a, auto b) { return std::strcmp(a->name, b->name) < 0; });
	for (auto *s : all_shapes) shape_by[s->name] = s;
	for (auto *n = entries; n; n = n->next) all_entries.push_back(&n->e);
	std::sort(all_entries.begin(), all_entries.end(), [](auto a, auto b) { return a->op != b->op ? a->op < b->op : std::strcmp(a->shape->name, b->shape->name) < 0; });
	for (int i = 0; i < op_count; ++i) op_by[op_meta[i].name] = i;
	by_op.assign(op_count, {}); entry_hit.assign(all_entries.size(), 0);
	for (std::size_t i = 0; i < all_entries.size(); ++i) { entry_by[{all_entries[i]->op, all_entries[i]->shape}] = int(i); by_op[all_entries[i]->op].push_back(int(i)); by_shape[all_entries[i]->shape].push_back(int(i)); }
	sh = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	iso_sh = static_cast<Iso *>(mmap(nullptr, sizeof(Iso), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	have_avx = __builtin_cpu_supports("avx");
}

// ------------------------------------------------------------------------------------------- scenario generation
static Bytes fresh(Rng &r, const Entry *e, int k) {
	const OpMeta &m = op_meta[e->op]; IO tmp; const IO *io = in_io(e, m.ins[k], tmp); int z = ty_size[io->ty]; Bytes b(io->n * z);
	int vp = 0; for (int q = 0; q < k; ++q) vp += m.ins[q] != 'M';
	if (m.ins[k] == 'M') { int mode = int(r.below(4)); for (auto &x : b) x = mode == 0 ? 0 : mode == 1 ? 1 : (r.next() & 1); if (m.dom == dom_anymask) b[r.below(b.size())] = 1; return b; }
	bool bcast = r.below(4) == 0;
	for (int i = 0; i < io->n; ++i) {
		if (bcast && i) std::memcpy(&b[i * z], &b[0], z);
		else if (m.ins[k] == 'I') { int v = r.below(3) ? int(r.below(400)) - 200 : int(r.below(6000)) - 3000; std::memcpy(&b[i * z], &v, 4); }
		else gen_lane(r, io->ty, m.dom, vp, &b[i * z]);
	}
	return b;
}
// operands that are nearly (or exactly) the other operand: comparisons, carries and borrows, cancellation
static void relate(Rng &r, const Entry *e, std::vector<Bytes> &v) {
	const OpMeta &m = op_meta[e->op]; int first = -1, vp = 0;
	for (int k = 0; m.ins[k]; ++k) {
		bool val = m.ins[k] == 'V' || m.ins[k] == 'S'; int pos = vp; vp += m.ins[k] != 'M';
		if (!val) continue;
		if (first < 0) { first = k; continue; }
		if (r.below(3)) continue;
		IO tmp, tmp0; const IO *io = in_io(e, m.ins[k], tmp), *i0 = in_io(e, m.ins[first], tmp0); int z = ty_size[io->ty]; if (io->ty != i0->ty) continue;
		bool fp = io->ty == f32 || io->ty == f64; int only = r.below(2) ? int(r.below(6)) : -1;
		for (int i = 0; i < io->n; ++i) {
			if (r.below(4) == 0) continue;
			std::uint64_t x = 0; std::memcpy(&x, &v[first][(i0->n == 1 ? 0 : i) * z], z);
			switch (only >= 0 ? only : int(r.below(6))) {
				case 0: break;
				case 1: x += 1; break;
				case 2: x -= 1; break;
				case 3: x ^= 1ull << r.below(8 * z); break;
				case 4: if (fp) x ^= 1ull << (8 * z - 1); else x = 0 - x; break;
				default: x ^= r.next() & ((1ull << (4 * z)) - 1);                 // same upper half
			}
			unsigned char b[8]; std::memcpy(b, &x, 8); if (lane_ok(io->ty, m.dom, pos, b)) std::memcpy(&v[k][i * z], b, z);
		}
	}
}
static std::uint32_t env_of(const Profile &p, Rng &r) {
	std::uint32_t m = 0x1f80;
	if (p.envmode == 1 || p.envmode == 3) m |= std::uint32_t(r.below(4)) << 13;
	if (p.envmode == 1) { if (r.below(4) == 0) m |= 0x8000; if (r.below(4) == 0) m |= 0x40; }
	if (p.envmode) { auto k = r.below(4); m |= k == 0 ? 0 : k == 1 ? 0x3f : std::uint32_t(r.below(64)); }
	return m;
}
Scenario generate(const Profile &p, Rng &r) {
	Scenario s; int nt = p.thr_lo + int(r.below(p.thr_hi - p.thr_lo + 1));
	static std::map<const Profile *, std::vector<std::uint8_t>> allow_c;
	auto &allow = allow_c[&p];
	if (allow.empty()) { allow.assign(op_count, p.ops.empty()); for (auto &o : p.ops) { auto i = op_by.find(o); if (i != op_by.end()) allow[i->second] = 1; } for (auto &o : p.skip) { auto i = op_by.find(o); if (i != op_by.end()) allow[i->second] = 0; } }
	auto candidates = [&](const Shape *q) { std::vector<int> c; for (int e : by_shape[q]) if (allow[all_entries[e]->op]) c.push_back(e); return c; };
	const Shape *first = nullptr; std::vector<int> focus_ops;
	// operations that are functions of their own rather than a few inlined instructions: where state can hide
	static const std::vector<char> heavy = [] { std::vector<char> h(op_count, 0); for (auto *n : {"exp", "exp2", "expm1", "log", "log2", "log10", "log1p", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "erf", "erfc", "tgamma", "lgamma",
		"hypot", "pow", "atan2", "sincos", "frexp", "modf", "ldexp", "scalbn", "scalbln", "ilogb", "logb", "nextafter", "fmod", "remainder", "remquo", "cbrt", "round", "rint", "nearbyint", "fma"}) { auto i = op_by.find(n); if (i != op_by.end()) h[i->second] = 1; } return h; }();
	std::map<int, std::vector<std::vector<Bytes>>> pool;      // few distinct inputs per entry: repeats and collisions across threads
	auto make = [&](int ei, bool regs) {
		Step st; st.e = all_entries[ei]; const OpMeta &m = op_meta[st.e->op];
		auto &pl = pool[ei]; if (int(pl.size()) < p.pool) { std::vector<Bytes> v; for (int k = 0; m.ins[k]; ++k) v.push_back(fresh(r, st.e, k)); relate(r, st.e, v); pl.push_back(v); }
		auto &v = pl[r.below(pl.size())];
		for (int k = 0; m.ins[k]; ++k) {
			Src q; if (regs && m.ins[k] != 'S' && int(r.below(100)) < p.p_reg) q.reg = int(r.below(4)); else q.lanes = v[k];
			st.in.push_back(q);
		}
		for (int k = 0; m.outs[k]; ++k) st.out[k] = int(r.below(4)); if (st.out[0] == st.out[1]) st.out[1] = (st.out[1] + 1) & 3;
		if (int(r.below(100)) < p.p_dirty) st.dirty = r.next() | 1;
		if (p.p_kill && int(r.below(100)) < p.p_kill) st.kill = 1 + long(r.below(r.below(4) == 0 ? 300 : r.below(2) ? 90 : 40));
		return st;
	};
	for (int t = 0; t < nt; ++t) {
		Thread th; std::vector<int> c;
		for (int tries = 0; tries < 50; ++tries) { th.shape = t && p.focus && r.below(4) ? first : all_shapes[r.below(all_shapes.size())]; c = candidates(th.shape); if (!c.empty()) break; }
		if (p.p_heavy && int(r.below(100)) < p.p_heavy) for (int tries = 0; tries < 20; ++tries) {
			const Shape *q = t && first && r.below(4) ? first : all_shapes[r.below(all_shapes.size())]; std::vector<int> h; for (int e : candidates(q)) if (heavy[all_entries[e]->op]) h.push_back(e);
			if (h.size() > 8) { th.shape = q; c = h; break; }
		}
		if (c.empty()) continue;
		if (!first) first = th.shape;
		if (p.focus) {
			std::vector<int> f; for (int e : c) if (std::find(focus_ops.begin(), focus_ops.end(), all_entries[e]->op) != focus_ops.end()) f.push_back(e);
			if (f.empty()) { for (int k = 0; k < p.focus; ++k) { int e = c[r.below(c.size())]; f.push_back(e); focus_ops.push_back(all_entries[e]->op); } }
			c = f;
		}
		th.mxcsr = env_of(p, r);
		int ns = p.step_lo + int(r.below(p.step_hi - p.step_lo + 1));
		for (int i = 0; i < ns; ++i) {
			int ei = c[r.below(c.size())]; Step st = make(ei, true);
			if (p.envmode && r.below(3) == 0) st.env = env_of(p, r);
			if (int(r.below(100)) < p.p_intr) {
				int n = 1 + int(r.below(2)); std::vector<long> at; for (int k = 0; k < n; ++k) at.push_back(4 + long(r.below(r.below(2) ? 40 : 200))); std::sort(at.begin(), at.end());
				for (long a : at) { int e2 = r.below(3) ? ei : c[r.below(c.size())]; Intr q; q.at = a; q.step = std::make_shared<Step>(make(e2, false)); st.intr.push_back(q); }
			}
			th.steps.push_back(st);
			if (int(r.below(100)) < p.p_rel) {
				// same operand values in other lanes (and possibly another shape), poison everywhere else
				const OpMeta &m = op_meta[st.e->op]; bool ok = true; for (int k = 0; m.ins[k]; ++k) { ok &= m.ins[k] != 'S'; } for (int k = 0; m.outs[k]; ++k) ok &= std::strchr("SBZ", m.outs[k]) == nullptr;
				if (!ok) continue;
				for (auto &q : th.steps.back().in) if (q.reg >= 0) { q.reg = -1; }
				for (int k = 0; m.ins[k]; ++k) th.steps.back().in[k].lanes = pool[ei][0][k];
				int src = int(th.steps.size()) - 1; const Entry *e2 = st.e; int n1 = st.e->shape->n;
				Step s2 = make(entry_index(e2), false); s2.rel = src; s2.env = st.env; s2.map.assign(e2->shape->n, -1);
				int keep = 1 + int(r.below(n1)), rot = int(r.below(n1));
				for (int l = 0; l < e2->shape->n; ++l) if (int(r.below(n1)) < keep) s2.map[l] = (l + rot) % n1;
				for (int k = 0; m.ins[k]; ++k) {
					IO tmp; const IO *io = in_io(e2, m.ins[k], tmp); int z = ty_size[io->ty]; Bytes b = fresh(r, e2, k);
					for (int l = 0; l < io->n; ++l) if (s2.map[l] >= 0) std::memcpy(&b[l * z], &th.steps[src].in[k].lanes[s2.map[l] * z], z);
					s2.in[k].reg = -1; s2.in[k].lanes = b;
				}
				th.steps.push_back(s2);
			}
		}
		s.threads.push_back(th);
	}
	if (p.life && !s.threads.empty()) {
		long n = 0; for (auto &t : s.threads) n += long(t.steps.size());
		s.boot = r.below(4) ? long(r.below(n)) : n; if (r.below(2)) s.fini = s.boot + long(r.below(n - s.boot + 1)); s.bseed = r.below(3) ? r.next() | 1 : 0;
		if (r.below(2)) {
			std::vector<long> at; for (int k = 1 + int(r.below(2)); k--;) at.push_back(1 + long(r.below(r.below(2) ? 60 : 600))); std::sort(at.begin(), at.end());
			auto &th = s.threads[0]; auto c = candidates(th.shape);
			for (long a : at) { Intr q; q.at = a; q.step = std::make_shared<Step>(make(r.below(3) ? entry_index(th.steps[r.below(th.steps.size())].e) : c[r.below(c.size())], false)); s.bintr.push_back(q); }
		}
	}
	if (int(r.below(100)) < p.p_sched && !s.threads.empty()) {
		int n = 2 + int(r.below(30)), bias = int(r.below(3));
		for (int k = 0; k < n; ++k) s.sched.push_back({int(r.below(s.threads.size())), 4 + long(r.below(bias == 0 ? 12 : bias == 1 ? 60 : 400))});
	}
	return s;
}

// ------------------------------------------------------------------------------------------- replay files
static std::string hex(const Bytes &b) { static const char *d = "0123456789abcdef"; std::string s; for (auto c : b) { s += d[c >> 4]; s += d[c & 15]; } return s; }
static Bytes unhex(const std::string &s) { Bytes b; for (std::size_t i = 0; i + 1 < s.size(); i += 2) b.push_back(static_cast<unsigned char>(std::stoi(s.substr(i, 2), nullptr, 16))); return b; }
static void step_text(std::ostringstream &o, const Step &s) {
	const OpMeta &m = op_meta[s.e->op];
	o << m.name << ' ' << s.e->shape->name << " out=" << s.out[0] << ',' << s.out[1] << " dirty=" << std::hex << s.dirty << " env=" << s.env << std::dec << " rel=" << s.rel << " map=";
	for (int x : s.map) o << x << ',';
	if (s.kill) o << " kill=" << s.kill;
	o << " in=";
	for (auto &q : s.in) { if (q.reg >= 0) o << 'r' << q.reg; else o << 'x' << hex(q.lanes); o << ';'; }
	o << '\n';
}
std::string to_text(const Scenario &s) {
	std::ostringstream o;
	for (auto &t : s.threads) {
		o << "thread " << t.shape->name << ' ' << std::hex << t.mxcsr << std::dec << '\n';
		for (auto &x : t.steps) { o << "  call "; step_text(o, x); for (auto &q : x.intr) { o << "    handler-at " << q.at << ' '; step_text(o, *q.step); } }
	}
	if (s.boot || s.fini >= 0 || s.bseed || !s.bintr.empty()) { o << "life " << s.boot << ' ' << s.fini << ' ' << s.bseed << '\n'; for (auto &q : s.bintr) { o << "  boot-handler-at " << q.at << ' '; step_text(o, *q.step); } }
	o << "schedule"; for (auto &x : s.sched) o << ' ' << x.t << ':' << x.q; o << '\n';
	return o.str();
}
static bool parse_step(std::istringstream &i, Step &s) {
	std::string op, shape, w; i >> op >> shape; s.e = find_entry(op, shape); if (!s.e) return false;
	while (i >> w) {
		auto v = w.substr(w.find('=') + 1);
		if (w.rfind("out=", 0) == 0) std::sscanf(v.c_str(), "%d,%d", &s.out[0], &s.out[1]);
		else if (w.rfind("dirty=", 0) == 0) s.dirty = std::stoull(v, nullptr, 16);
		else if (w.rfind("env=", 0) == 0) s.env = std::uint32_t(std::stoul(v, nullptr, 16));
		else if (w.rfind("kill=", 0) == 0) s.kill = std::stol(v);
		else if (w.rfind("rel=", 0) == 0) s.rel = std::stoi(v);
		else if (w.rfind("map=", 0) == 0) { std::istringstream q(v); for (std::string x; std::getline(q, x, ',');) if (!x.empty()) s.map.push_back(std::stoi(x)); }
		else if (w.rfind("in=", 0) == 0) { std::istringstream q(v); for (std::string x; std::getline(q, x, ';');) if (!x.empty()) { Src a; if (x[0] == 'r') a.reg = std::stoi(x.substr(1)); else a.lanes = unhex(x.substr(1)); s.in.push_back(a); } }
	}
	return true;
}
bool from_text(const std::string &t, Scenario &s, std::string &err) {
	std::istringstream in(t);
	for (std::string line; std::getline(in, line);) {
		std::istringstream i(line); std::string w; i >> w;
		if (w == "thread") { Thread th; std::string n; i >> n >> std::hex >> th.mxcsr; auto q = shape_by.find(n); if (q == shape_by.end()) { err = "unknown shape " + n; return false; } th.shape = q->second; s.threads.push_back(th); }
		else if (w == "call") { Step st; if (!parse_step(i, st)) { err = "unknown call " + line; return false; } s.threads.back().steps.push_back(st); }
		else if (w == "handler-at") { Intr q; i >> q.at; q.step = std::make_shared<Step>(); if (!parse_step(i, *q.step)) { err = "unknown call " + line; return false; } s.threads.back().steps.back().intr.push_back(q); }
		else if (w == "life") i >> s.boot >> s.fini >> s.bseed;
		else if (w == "boot-handler-at") { Intr q; i >> q.at; q.step = std::make_shared<Step>(); if (!parse_step(i, *q.step)) { err = "unknown call " + line; return false; } s.bintr.push_back(q); }
		else if (w == "schedule") { while (i >> w) { Slice x; std::sscanf(w.c_str(), "%d:%ld", &x.t, &x.q); s.sched.push_back(x); } }
	}
	return !s.threads.empty();
}
}
