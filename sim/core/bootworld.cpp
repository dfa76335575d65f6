// Simulated machine for start-up: CPUID, XGETBV and every system call the start-up code executes are answered by a model
// processor and kernel, one instruction at a time; faults are injected into the system calls and allocations.
#include "alt.hpp"
#include "boot.hpp"
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <new>
#include <sstream>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
extern "C" { using BootInit = void (*)(); extern BootInit __start_dpm_init[] __attribute__((weak)); extern BootInit __stop_dpm_init[] __attribute__((weak)); }
namespace sim {
namespace {
using u32 = std::uint32_t; using u64 = std::uint64_t;
struct Machine { char vendor[13]; u32 max, l1c, l1d, l7b; u64 seed; u64 xcr0; int ncpu, style; u32 oscpu; };
struct Fault { int kind, nth, arg; };            // kind 0 open, 1 read, 2 allocation; arg: errno (negative) or byte limit
struct Scn { Machine m; std::vector<Fault> f; };
struct Shm { int kind; char msg[1500]; u64 insns, cpuid, xgetbv, sys, opens, reads, fired[3], shorts, hash; u64 got; int done; };
Shm *sh; std::string file; const Scn *cur; int depth_alloc; bool active;
int fd_open[64]; long fd_pos[64]; int n_open, n_read, n_alloc;
[[noreturn]] void bad(const std::string &m) { active = false; if (!sh->kind) { sh->kind = 1; std::snprintf(sh->msg, sizeof sh->msg, "%s", m.c_str()); } _exit(7); }
u32 noise(u64 a, u64 b, u64 c) { return u32(mix(mix(mix(cur->m.seed, a), b), c) >> 13); }
void do_cpuid(greg_t *r) {
	u32 leaf = u32(r[REG_RAX]), sub = u32(r[REG_RCX]); const Machine &m = cur->m; u32 a = 0, b = 0, c = 0, d = 0; sh->cpuid++;
	if (leaf == 0) { a = m.max; std::memcpy(&b, m.vendor, 4); std::memcpy(&d, m.vendor + 4, 4); std::memcpy(&c, m.vendor + 8, 4); }
	else if (leaf >= 0x80000000u) { a = leaf == 0x80000000u ? 0x80000008u : noise(leaf, 0, 0); b = noise(leaf, 0, 1); c = noise(leaf, 0, 2); d = noise(leaf, 0, 3); }
	else if (leaf > m.max) { if (m.seed & 1) { a = noise(99, sub, 0); b = noise(99, sub, 1); c = noise(99, sub, 2); d = noise(99, sub, 3); } }   // data of another leaf, or zeros
	else if (leaf == 1) { a = 0x306c3; b = noise(1, 0, 1); c = m.l1c; d = m.l1d; }
	else if (leaf == 7 && sub == 0) { a = m.seed >> 8 & 3; b = m.l7b; c = noise(7, 0, 2); d = noise(7, 0, 3); }
	else if (leaf == 7) { if (m.seed & 2) { a = noise(7, sub, 0); b = noise(7, sub, 1); c = noise(7, sub, 2); d = noise(7, sub, 3); } }           // another sub-leaf
	else { a = noise(leaf, sub, 0); b = noise(leaf, sub, 1); c = noise(leaf, sub, 2); d = noise(leaf, sub, 3); }
	sh->hash = mix(mix(sh->hash, leaf), sub); r[REG_RAX] = a; r[REG_RBX] = b; r[REG_RCX] = c; r[REG_RDX] = d; r[REG_RIP] += 2;
}
const Fault *fault(int kind, int nth) { for (auto &f : cur->f) if (f.kind == kind && f.nth == nth) { sh->fired[kind]++; return &f; } return nullptr; }
long sim_open(const char *p) {
	const Fault *f = fault(0, n_open++); sh->opens++; if (f) return f->arg;
	if (std::strcmp(p, "/proc/cpuinfo") || cur->m.style == 3) return -ENOENT;
	for (int i = 0; i < 64; ++i) if (!fd_open[i]) { fd_open[i] = 1; fd_pos[i] = 0; return i + 100; }
	return -EMFILE;
}
bool is_fd(long fd) { return fd >= 100 && fd < 164 && fd_open[fd - 100]; }
long sim_read(long fd, char *b, u64 n, long at) {
	if (!is_fd(fd)) return -EBADF;
	const Fault *f = fault(1, n_read++); sh->reads++; if (f && f->arg < 0) return f->arg; if (f) { sh->shorts++; if (u64(f->arg) < n) n = u64(f->arg); }
	long &pos = fd_pos[fd - 100]; long p = at < 0 ? pos : at; u64 left = p < long(file.size()) ? file.size() - u64(p) : 0; if (n > left) n = left;
	std::memcpy(b, file.data() + p, n); if (at < 0) pos += long(n); return long(n);
}
bool do_syscall(greg_t *r) {                       // true: answered here, false: let the host run it
	long nr = r[REG_RAX], a = r[REG_RDI], b = r[REG_RSI], c = r[REG_RDX], d = r[REG_R10], v; sh->sys++;
	switch (nr) {
	case SYS_brk: case SYS_mmap: case SYS_munmap: case SYS_mprotect: case SYS_mremap: case SYS_madvise: case SYS_futex: case SYS_exit: case SYS_exit_group: case SYS_tgkill: case SYS_kill: case SYS_tkill: case SYS_rt_sigprocmask: case SYS_rt_sigaction: case SYS_getpid: case SYS_gettid: case SYS_rt_sigreturn: return false;
	case SYS_open: v = sim_open(reinterpret_cast<const char *>(a)); break;
	case SYS_openat: v = sim_open(reinterpret_cast<const char *>(b)); break;
	case SYS_read: v = sim_read(a, reinterpret_cast<char *>(b), u64(c), -1); break;
	case SYS_pread64: v = sim_read(a, reinterpret_cast<char *>(b), u64(c), d); break;
	case SYS_readv: { auto *io = reinterpret_cast<const iovec *>(b); v = 0; for (long i = 0; i < c; ++i) { long q = sim_read(a, static_cast<char *>(io[i].iov_base), io[i].iov_len, -1); if (q < 0) { if (!v) v = q; break; } v += q; if (u64(q) < io[i].iov_len) break; } break; }
	case SYS_lseek: v = !is_fd(a) ? -EBADF : (fd_pos[a - 100] = c == SEEK_SET ? b : c == SEEK_CUR ? fd_pos[a - 100] + b : long(file.size()) + b); break;
	case SYS_close: if (!is_fd(a)) bad("descriptor: close of " + std::to_string(a) + ", which start-up does not own"); fd_open[a - 100] = 0; v = 0; break;
	case SYS_fstat: case SYS_newfstatat: { struct stat s{}; s.st_mode = S_IFREG | 0444; s.st_blksize = 1024; auto *o = reinterpret_cast<struct stat *>(nr == SYS_fstat ? b : c); v = is_fd(a) ? 0 : -ENOENT; if (!v) *o = s; break; }
	case SYS_write: case SYS_writev: v = nr == SYS_write ? c : 1; break;
	case SYS_fcntl: v = is_fd(a) ? 0 : -EBADF; break;
	default: v = -ENOSYS;
	}
	sh->hash = mix(mix(sh->hash, u64(nr)), u64(v)); r[REG_RAX] = v; r[REG_RIP] += 2; r[REG_RCX] = r[REG_RIP]; r[REG_R11] = r[REG_EFL]; return true;
}
void on_trap(int, siginfo_t *, void *u) {
	auto *r = static_cast<ucontext_t *>(u)->uc_mcontext.gregs;
	if (!active) { r[REG_EFL] &= ~0x100ll; return; }
	if (++sh->insns > 6000000) bad("no-progress: start-up did not finish within 6000000 instructions");
	for (int k = 0; k < 8; ++k) {
		auto *p = reinterpret_cast<const unsigned char *>(r[REG_RIP]); 
		if (p[0] == 0x0f && p[1] == 0xa2) { do_cpuid(r); continue; }
		if (p[0] == 0x0f && p[1] == 0x01 && p[2] == 0xd0) {
			sh->xgetbv++; if (!(cur->m.l1c >> 27 & 1) || cur->m.max < 1) bad("trap: XGETBV executed although the operating system has not enabled it");
			if (u32(r[REG_RCX]) != 0) bad("trap: XGETBV of register " + std::to_string(u32(r[REG_RCX])));
			r[REG_RAX] = u32(cur->m.xcr0); r[REG_RDX] = u32(cur->m.xcr0 >> 32); r[REG_RIP] += 3; continue;
		}
		if (p[0] == 0x0f && p[1] == 0x05 && do_syscall(r)) continue;
		break;
	}
}
void on_crash(int sig, siginfo_t *, void *) { if (!sh->kind) { sh->kind = 2; std::snprintf(sh->msg, sizeof sh->msg, "no-result: signal %d during start-up", sig); } _exit(8); }
char sigstk[65536];
// what a kernel prints for this machine; style 0 plain, 1 user-chosen model name, 2 no flags line, 3 no /proc
std::string cpuinfo(const Machine &m) {
	Rng r(m.seed); std::ostringstream o; static const char *names[] = {"Intel(R) Core(TM) i7-4770 CPU @ 3.40GHz", "AMD EPYC 7763 64-Core Processor", "QEMU Virtual CPU version 2.5+"}, *odd[] = {"host flags : fpu sse sse2 pni ssse3 sse4_1 sse4_2 avx", "custom sse4_2 ssse3 build", "flags"};
	struct { int reg, bit; const char *tok; } tk[] = {{1, 0, "fpu"}, {1, 8, "cx8"}, {1, 15, "cmov"}, {1, 25, "sse"}, {1, 26, "sse2"}, {0, 0, "pni"}, {0, 1, "pclmulqdq"}, {0, 9, "ssse3"}, {0, 13, "cx16"}, {0, 19, "sse4_1"}, {0, 20, "sse4_2"}, {0, 23, "popcnt"}};
	std::string nm = m.style == 1 ? odd[r.below(3)] : names[r.below(3)]; bool amd = r.below(2); int extra = int(r.below(3) ? r.below(6) : r.below(60));
	for (int c = 0; c < m.ncpu; ++c) {
		o << "processor\t: " << c << "\nvendor_id\t: " << m.vendor << "\ncpu family\t: 6\nmodel\t\t: 60\nmodel name\t: " << nm << "\nstepping\t: 3\ncpu MHz\t\t: 800.000\ncache size\t: 8192 KB\nphysical id\t: 0\ncpuid level\t: " << m.max << "\nwp\t\t: yes\n";
		if (m.style != 2) {
			o << "flags\t\t:";
			for (int b = 0; b < 12; ++b) { auto &t = tk[b]; if (((t.reg ? m.l1d : m.l1c) >> t.bit & 1) && m.max >= 1 && (m.oscpu >> b & 1)) o << ' ' << t.tok; if (b == 5) for (int q = 0; q < extra; ++q) o << " cap" << q; }
			if (amd) o << " misalignsse sse4a"; o << " arat\nvmx flags\t: vnmi sse4_2 flexpriority\n";
		}
		o << "bugs\t\t: spectre_v1\nbogomips\t: 6784.49\nclflush size\t: 64\npower management:\n\n";
	}
	return o.str();
}
// features the model machine lets programs use
u64 usable(const Machine &m) {
	u64 v = 0; u32 c = m.max >= 1 ? m.l1c : 0, d = m.max >= 1 ? m.l1d : 0, b = m.max >= 7 ? m.l7b : 0; bool os = c >> 27 & 1;
	auto os_flag = [&](int k) { return m.style < 2 && m.ncpu > 0 && (m.oscpu >> k & 1); };
	auto on = [&](int f, u32 reg, int bit, bool sys) { if ((reg >> bit & 1) && sys) v |= 1ull << f; };
	bool sse = m.xcr0 & 2, avx = (m.xcr0 & 6) == 6, z = (m.xcr0 & 0xe6) == 0xe6;
	on(F_MSR, d, 5, true); on(F_CX8, d, 8, true); on(F_SEP, d, 11, true); on(F_CMOV, d, 15, true); on(F_CLFSH, d, 19, true); on(F_XSAVE, c, 27, true); on(F_CX16, c, 13, true);
	on(F_SSE, d, 25, os ? sse : os_flag(3)); on(F_SSE2, d, 26, os ? sse : os_flag(4)); on(F_SSE3, c, 0, os ? sse : os_flag(5)); on(F_SSSE3, c, 9, os ? sse : os_flag(7)); on(F_SSE41, c, 19, os ? sse : os_flag(9)); on(F_SSE42, c, 20, os ? sse : os_flag(10));
	on(F_F16C, c, 29, os && avx); on(F_AVX, c, 28, os && avx); on(F_AVX2, b, 5, os && avx); on(F_FMA, c, 12, os && avx);
	on(F_512F, b, 16, os && z); on(F_512CD, b, 28, os && z); on(F_512BW, b, 30, os && z); on(F_512DQ, b, 17, os && z); on(F_512VL, b, 31, os && z);
	if (!std::strcmp(m.vendor, "GenuineIntel")) v |= 1ull << F_INTEL; if (!std::strcmp(m.vendor, "AuthenticAMD")) v |= 1ull << F_AMD;
	return v;
}
template<class F> __attribute__((noinline)) void stepped(F f) {
	active = true; asm volatile("lea -128(%%rsp),%%rsp\n\tpushfq\n\torq $0x100,(%%rsp)\n\tpopfq\n\tlea 128(%%rsp),%%rsp" ::: "memory", "cc"); f(); active = false;
	asm volatile("nop\n\tnop" ::: "memory");
}
[[noreturn]] void child(const Scn &s) {
	cur = &s; file = cpuinfo(s.m); stack_t ss{}; ss.ss_sp = sigstk; ss.ss_size = sizeof sigstk; sigaltstack(&ss, nullptr);
	struct sigaction a{}; a.sa_sigaction = on_trap; a.sa_flags = SA_SIGINFO; sigaction(SIGTRAP, &a, nullptr);
	a.sa_sigaction = on_crash; a.sa_flags = SA_SIGINFO | SA_ONSTACK; for (int g : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM}) sigaction(g, &a, nullptr);
	std::set_terminate([] { bad("no-result: an exception left a noexcept function during start-up"); });
	alarm(20); clean_stack(); scribble(s.m.seed);
	for (BootInit *p = __start_dpm_init; p != __stop_dpm_init; ++p) { auto f = *p; stepped([&] { f(); }); }
	u64 got = 0;
	for (int k = 0; k < F_N; ++k) { bool v = false; stepped([&] { v = boot_feature[k].has(); }); if (v) got |= 1ull << k; }
	sh->got = got; u64 want = usable(s.m);
	for (int k = 0; k < F_N; ++k) {
		bool g = got >> k & 1, w = want >> k & 1;
		if (g && !w) bad(std::string("invented: ") + boot_feature[k].name + " is reported, but the machine does not provide it");
		if (!g && w && !sh->fired[0] && sh->fired[1] == sh->shorts && !sh->fired[2]) bad(std::string("hidden: ") + boot_feature[k].name + " is usable and no call failed, but it is not reported");
	}
	for (int i = 0; i < 64; ++i) if (fd_open[i]) bad("descriptor: left open by start-up");
	sh->done = 1; _exit(0);
}
bool parse(const std::string &t, Scn &s) {
	std::istringstream in(t); bool ok = false; s.m = Machine{};
	for (std::string line; std::getline(in, line);) {
		std::istringstream i(line); std::string w, v; i >> w;
		if (w == "machine") { i >> v >> s.m.max >> std::hex >> s.m.l1c >> s.m.l1d >> s.m.l7b >> s.m.xcr0 >> s.m.seed; std::snprintf(s.m.vendor, 13, "%s", v.c_str()); ok = true; }
		else if (w == "kernel") i >> s.m.ncpu >> s.m.style >> std::hex >> s.m.oscpu;
		else if (w == "open-fails") { Fault f{0, 0, 0}; i >> f.nth >> f.arg; s.f.push_back(f); }
		else if (w == "read-fails" || w == "read-short") { Fault f{1, 0, 0}; i >> f.nth >> f.arg; s.f.push_back(f); }
		else if (w == "allocation-fails") { Fault f{2, 0, 0}; i >> f.nth; s.f.push_back(f); }
	}
	return ok;
}
struct BootWorld : AltWorld {
	Shm tot{}; u64 boots_fallback = 0;
	std::string gen(Rng &r) override {
		static const char *vend[] = {"GenuineIntel", "AuthenticAMD", "HygonGenuine", "GenuineIntem", "KVMKVMKVMKVM"}; std::ostringstream o; o << "scenario\n";
		u32 max = u32(r.below(4) ? 7 + r.below(20) : r.below(8)); auto bits = [&] { u32 v = u32(r.next()); switch (r.below(4)) { case 0: v |= u32(r.next()); break; case 1: v = ~0u; break; case 2: v |= u32(r.next()) | u32(r.next()); break; } return v; };
		u32 c = bits(), d = bits(), b = bits(); if (r.below(2)) c &= ~(1u << 27); else c |= 1u << 27;
		static const u64 x0[] = {1, 3, 7, 0xe7, 0xff, 0x1f, 0x27, 0x47, 0x87, 0xe3, 0x67, 0x2e7, 5, 0xe1, 0x602e7};
		o << "machine " << vend[r.below(3) ? r.below(2) : r.below(5)] << ' ' << max << ' ' << std::hex << c << ' ' << d << ' ' << b << ' ' << x0[r.below(15)] << ' ' << (r.next() >> 8) << std::dec << '\n';
		o << "kernel " << 1 + (r.below(4) ? 0 : r.below(8) ? r.below(3) : r.below(20)) << ' ' << (r.below(3) ? 0 : r.below(4)) << ' ' << std::hex << (r.below(3) ? ~0u : bits()) << std::dec << '\n';
		static const int oe[] = {-ENOENT, -EACCES, -EMFILE, -ENFILE, -EINTR, -ENOMEM}, re[] = {-EINTR, -EINTR, -EIO, -EAGAIN, -ENOMEM};
		if (r.below(3)) for (int k = int(r.below(6)); k--;) switch (r.below(6)) {
			case 0: o << "  open-fails " << r.below(2) << ' ' << oe[r.below(6)] << '\n'; break;
			case 1: case 2: o << "  read-fails " << r.below(6) << ' ' << re[r.below(5)] << '\n'; break;
			case 3: o << "  allocation-fails " << r.below(3) << '\n'; break;
			default: { bool all = r.below(3) == 0; int n = all ? 40 : 1; for (int q = 0; q < n; ++q) o << "  read-short " << (all ? q : int(r.below(6))) << ' ' << 1 + (r.below(2) ? r.below(40) : r.below(700)) << '\n'; }
		}
		return o.str();
	}
	Outcome exec(const std::string &t, Stats &st) override {
		Outcome o; Scn s; if (!parse(t, s)) { o.kind = 9; o.msg = "no machine"; return o; }
		std::memset(static_cast<void *>(sh), 0, sizeof *sh);
		pid_t p = fork(); if (!p) child(s);
		int w; while (waitpid(p, &w, 0) < 0 && errno == EINTR) {}
		st.runs++; st.calls += F_N + 1; st.insns += sh->insns; st.model += F_N; st.injected += sh->fired[0] + sh->fired[1] + sh->fired[2]; if (sh->insns > st.max_insn) st.max_insn = sh->insns;
		tot.cpuid += sh->cpuid; tot.xgetbv += sh->xgetbv; tot.sys += sh->sys; tot.reads += sh->reads; tot.shorts += sh->shorts; for (int k = 0; k < 3; ++k) tot.fired[k] += sh->fired[k]; boots_fallback += sh->opens > 0;
		states[mix(mix(mix(mix(sh->got, s.m.xcr0), s.m.style), s.m.max), sh->fired[0] * 64 + sh->fired[1] * 8 + sh->fired[2])]++;
		o.hash = mix(sh->hash, sh->got);
		if (sh->kind) { o.kind = sh->kind; o.msg = sh->msg; o.hash = mix(o.hash, o.kind); }
		else if (!sh->done || !WIFEXITED(w) || WEXITSTATUS(w)) { o.kind = 2; o.msg = "no-result: start-up ended the process, status " + std::to_string(w); }
		return o;
	}
	std::string extra() override {
		std::ostringstream j; j << ", \"cpuid_executed\": " << tot.cpuid << ", \"xgetbv_executed\": " << tot.xgetbv << ", \"syscalls\": " << tot.sys << ", \"reads\": " << tot.reads << ", \"short_reads\": " << tot.shorts << ", \"open_failures\": " << tot.fired[0] << ", \"read_failures\": " << tot.fired[1] - tot.shorts << ", \"allocation_failures\": " << tot.fired[2] << ", \"fallback_boots\": " << boots_fallback; return j.str();
	}
};
}
AltWorld *alt_world(const std::string &prop) {
	if (prop != "S09") return nullptr;
	try { throw 1; } catch (int) {}                 // let the unwinder build its tables before the forks
	static BootWorld w; sh = static_cast<Shm *>(mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)); return &w;
}
bool boot_alloc_fails() { if (!active || !cur) return false; return fault(2, n_alloc++) != nullptr; }
}
static void *sim_new(std::size_t n) { void *p = sim::boot_alloc_fails() ? nullptr : std::malloc(n ? n : 1); return p; }
void *operator new(std::size_t n) { if (void *p = sim_new(n)) return p; throw std::bad_alloc(); }
void *operator new[](std::size_t n) { if (void *p = sim_new(n)) return p; throw std::bad_alloc(); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { return sim_new(n); }
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept { return sim_new(n); }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete[](void *p) noexcept { std::free(p); }
void operator delete(void *p, std::size_t) noexcept { std::free(p); }
void operator delete[](void *p, std::size_t) noexcept { std::free(p); }
