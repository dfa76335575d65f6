// dpmsim run <property> <seed> <first> <stride> <count> <seconds> <out>   seeded search
// dpmsim replay <file>                                                    re-execute one recorded scenario
// dpmsim determinism <property> <seed> <count>                            print event-log hashes
#include "alt.hpp"
#include <unordered_set>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <sstream>
#include <sys/personality.h>
#include <unistd.h>
using namespace sim;
extern const char *const sim_config;
std::vector<Profile> make_profiles();
static std::vector<Profile> profs;
static const Profile *profile(const std::string &n) { for (auto &p : profs) if (p.name == n) return &p; std::fprintf(stderr, "unknown profile %s\n", n.c_str()); std::exit(3); }
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static std::vector<Finding> load_findings(const char *path, const std::string &prop) {
	std::vector<Finding> v; std::ifstream f(path);
	for (std::string l; std::getline(f, l);) {
		if (l.rfind("finding ", 0)) continue;
		Finding x; std::istringstream i(l.substr(8));
		auto bar = l.find(" :: "); if (bar != std::string::npos) x.text = l.substr(bar + 4);
		for (std::string w; i >> w && w != "::";) {
			auto k = w.substr(0, w.find('=')), q = w.substr(w.find('=') + 1);
			if (k == "id") x.id = q; else if (k == "property") x.prop = q; else if (k == "op") x.op = q; else if (k == "types") x.types = q; else if (k == "abis") x.abis = q; else if (k == "configs") x.configs = q; else if (k == "class") x.cls = q;
		}
		if (x.prop == prop) v.push_back(x);
	}
	return v;
}
static std::string cls(const Outcome &o) { return std::to_string(o.kind) + o.msg.substr(0, o.msg.find(':')); }
struct MainWorld {
	using S = Scenario; const Profile &p;
	Scenario gen(Rng &r) { return generate(p, r); }
	Outcome exec(const Scenario &s, Stats &st) { return execute(p, s, st); }
	std::string text(const Scenario &s) { return to_text(s); }
	bool parse(const std::string &t, Scenario &s, std::string &err) { return from_text(t, s, err); }
	Scenario minimise(Scenario s, const Outcome &o0, int &tries);
	void extra(std::ostream &js) {
		int hit = 0; for (std::size_t i = 0; i < entry_hit.size(); ++i) hit += entry_hit[i];
		js << ", \"entries\": " << entry_hit.size() << ", \"entries_hit\": " << hit << ", \"hits\": {";
		bool c = false; for (auto &x : finding_hits) { js << (c ? ", " : "") << '"' << x.first << "\": " << x.second; c = true; }
		js << "}";
	}
};
struct TextWorld {
	using S = std::string; AltWorld &w;
	std::string gen(Rng &r) { return w.gen(r); }
	Outcome exec(const std::string &s, Stats &st) { return w.exec(s, st); }
	std::string text(const std::string &s) { return s; }
	bool parse(const std::string &t, std::string &s, std::string &) { auto q = t.find("scenario\n"); if (q == std::string::npos) return false; s = t.substr(q); return true; }
	// lines that start with two blanks may be dropped one by one or in groups
	std::string minimise(std::string s, const Outcome &o0, int &tries) {
		Stats st; double t0 = now(); std::string want = cls(o0); tries = 0;
		auto bad = [&](const std::string &c) { if (tries > 600 || now() - t0 > 40) return false; ++tries; return cls(exec(c, st)) == want; };
		std::vector<std::string> l; { std::istringstream i(s); for (std::string x; std::getline(i, x);) l.push_back(x); }
		auto join = [](const std::vector<std::string> &v) { std::string r; for (auto &x : v) r += x + "\n"; return r; };
		for (bool again = true; again;) {
			again = false;
			for (std::size_t n = std::max<std::size_t>(1, l.size() / 2); n >= 1; n /= 2) for (std::size_t i = l.size(); i-- > 0;) {
				if (i + n > l.size()) continue;
				bool ok = true; for (std::size_t k = i; k < i + n; ++k) ok &= l[k].rfind("  ", 0) == 0;
				if (!ok) continue;
				auto c = l; c.erase(c.begin() + long(i), c.begin() + long(i + n)); if (bad(join(c))) { l = c; again = true; }
			}
		}
		return join(l);
	}
	void extra(std::ostream &js) { js << w.extra(); }
};
Scenario MainWorld::minimise(Scenario s, const Outcome &o0, int &tries) {
	Stats st; double t0 = now(); std::string want = cls(o0); tries = 0;
	auto bad = [&](const Scenario &c) { if (tries > 600 || now() - t0 > 40) return false; ++tries; return cls(execute(p, c, st)) == want; };
	auto drop_step = [](Scenario &c, std::size_t t, std::size_t i) {
		auto &v = c.threads[t].steps; v.erase(v.begin() + long(i));
		for (auto &x : v) { if (x.rel == int(i)) x.rel = -1; else if (x.rel > int(i)) x.rel--; }
	};
	for (bool again = true; again;) {
		again = false;
		for (std::size_t t = s.threads.size(); t-- > 0;) if (s.threads.size() > 1) {
			Scenario c = s; c.threads.erase(c.threads.begin() + long(t)); std::vector<Slice> q;
			for (auto &x : c.sched) if (x.t != int(t)) { q.push_back({x.t > int(t) ? x.t - 1 : x.t, x.q}); } c.sched = q;
			if (bad(c)) { s = c; again = true; }
		}
		{ Scenario c = s; c.sched.clear(); if (!s.sched.empty() && bad(c)) { s = c; again = true; } }
		for (std::size_t n = s.sched.size() / 2; n >= 1; n /= 2) for (std::size_t i = 0; i + n <= s.sched.size();) {
			Scenario c = s; c.sched.erase(c.sched.begin() + long(i), c.sched.begin() + long(i + n)); if (bad(c)) { s = c; again = true; } else i += n;
		}
		for (std::size_t t = 0; t < s.threads.size(); ++t) for (std::size_t i = s.threads[t].steps.size(); i-- > 0;) {
			if (s.threads[t].steps.size() > 1) { Scenario c = s; drop_step(c, t, i); if (bad(c)) { s = c; again = true; continue; } }
			for (std::size_t k = s.threads[t].steps[i].intr.size(); k-- > 0;) { Scenario c = s; auto &v = c.threads[t].steps[i].intr; v.erase(v.begin() + long(k)); if (bad(c)) { s = c; again = true; } }
			if (s.threads[t].steps[i].kill) { Scenario c = s; c.threads[t].steps[i].kill = 0; if (bad(c)) { s = c; again = true; } }
			if (s.threads[t].steps[i].dirty) { Scenario c = s; c.threads[t].steps[i].dirty = 0; if (bad(c)) { s = c; again = true; } }
			if (s.threads[t].steps[i].env) { Scenario c = s; c.threads[t].steps[i].env = 0; if (bad(c)) { s = c; again = true; } }
		}
		for (std::size_t k = s.bintr.size(); k-- > 0;) { Scenario c = s; c.bintr.erase(c.bintr.begin() + long(k)); if (bad(c)) { s = c; again = true; } }
		if (s.boot) { Scenario c = s; c.boot = 0; if (bad(c)) { s = c; again = true; } }
		if (s.fini >= 0) { Scenario c = s; c.fini = -1; if (bad(c)) { s = c; again = true; } }
		if (s.bseed) { Scenario c = s; c.bseed = 0; if (bad(c)) { s = c; again = true; } }
		for (auto &t : s.threads) if (t.mxcsr != 0x1f80) { auto m = t.mxcsr; t.mxcsr = 0x1f80; if (bad(s)) again = true; else t.mxcsr = m; }
	}
	return s;
}
static std::string esc(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if (static_cast<unsigned char>(c) < 32) r += ' '; else r += c; } return r; }
template<class W> static int drive(W w, const std::string &mode, const std::string &prop, int argc, char **argv) {
	using S = typename W::S;
	if (mode == "replay") {
		std::ifstream f(argv[2]); std::stringstream b; b << f.rdbuf();
		S s; std::string err; if (!w.parse(b.str(), s, err)) { std::fprintf(stderr, "%s\n", err.c_str()); return 3; }
		Stats st; Outcome o = w.exec(s, st);
		std::printf("replay kind=%d hash=%016llx %s\n", o.kind, (unsigned long long)o.hash, esc(o.msg).c_str());
		return o.kind ? 1 : 0;
	}
	std::uint64_t seed = std::strtoull(argv[3], nullptr, 10);
	auto scenario = [&](std::uint64_t i) { Rng r(mix(mix(seed, hash_bytes(7, prop.data(), prop.size())), i)); return w.gen(r); };
	if (mode == "determinism") {
		Stats st; int n = std::atoi(argv[4]);
		for (int i = 0; i < n; ++i) { Outcome o = w.exec(scenario(i), st); std::printf("%d %016llx %d\n", i, (unsigned long long)o.hash, o.kind); }
		return 0;
	}
	if (mode == "show") { std::printf("%s", w.text(scenario(std::atoi(argv[4]))).c_str()); return 0; }
	if (argc < 9) return 3;
	std::uint64_t first = std::strtoull(argv[4], nullptr, 10), stride = std::strtoull(argv[5], nullptr, 10), count = std::strtoull(argv[6], nullptr, 10); double secs = std::atof(argv[7]);
	const char *out = argv[8]; double t0 = now(); Stats st; std::uint64_t hash = 0; int dcheck = 0, dbad = 0; std::ofstream js(out);
	std::unordered_set<std::uint64_t> distinct; auto faults = [&] { return st.preempt + st.intr + st.dirty + st.envs + st.ftz + st.presets + st.injected + st.kills + st.early + st.late + st.boot_intr; };
	bool all = std::getenv("DPMSIM_ALL");     // development: list every violation instead of stopping
	for (std::uint64_t k = 0, i = first; k < count && now() - t0 < secs; ++k, i += stride) {
		S s = scenario(i); auto f0 = faults(); Outcome o = w.exec(s, st); hash = mix(hash, o.hash); if (faults() != f0) distinct.insert(o.hash);
		if (k % 64 == 0) { Stats d; ++dcheck; Outcome o2 = w.exec(s, d); if (o2.hash != o.hash || o2.kind != o.kind) ++dbad; }
		if (!o.kind) continue;
		if (all) { std::printf("run %llu: %s\n", (unsigned long long)i, o.msg.c_str()); continue; }
		Stats d; Outcome o2 = w.exec(s, d); int tries = 0;
		if (o2.kind != o.kind || o2.hash != o.hash) { js << "unstable {\"run\": " << i << ", \"first\": \"" << esc(o.msg) << "\", \"second\": \"" << esc(o2.msg) << "\"}\n"; continue; }
		S m = w.minimise(s, o, tries); Outcome om = w.exec(m, d);
		std::string rf = std::string(out) + ".replay"; std::ofstream r(rf);
		r << "dpmsim replay 1\nproperty " << prop << "\nconfig " << sim_config << "\nseed " << seed << " run " << i << "\nviolation " << esc(om.msg) << "\n" << w.text(m); r.close();
		js << "violation {\"run\": " << i << ", \"kind\": " << om.kind << ", \"hash\": \"" << std::hex << om.hash << std::dec << "\", \"msg\": \"" << esc(om.msg) << "\", \"tries\": " << tries << ", \"replay\": \"" << rf << "\"}\n";
		break;
	}
	{ std::ofstream h(std::string(out) + ".hashes"); for (auto x : distinct) h.write(reinterpret_cast<const char *>(&x), 8); }
	{ std::ofstream h(std::string(out) + ".states"); for (auto &x : states) h.write(reinterpret_cast<const char *>(&x.first), 8); }
	js << "stats {\"config\": \"" << sim_config << "\", \"runs\": " << st.runs << ", \"calls\": " << st.calls << ", \"instructions\": " << st.insns << ", \"preemptions\": " << st.preempt << ", \"handlers\": " << st.intr << ", \"garbage\": " << st.dirty
		<< ", \"rounding_modes\": " << st.envs << ", \"ftz_daz\": " << st.ftz << ", \"preset_flags\": " << st.presets << ", \"skipped\": " << st.skipped << ", \"isolated\": " << st.iso << ", \"relations\": " << st.rel << ", \"model_checks\": " << st.model << ", \"max_instructions\": " << st.max_insn
		<< ", \"abandoned\": " << st.kills << ", \"early_calls\": " << st.early << ", \"late_calls\": " << st.late << ", \"boot_handlers\": " << st.boot_intr
		<< ", \"finding_hits\": " << st.found << ", \"dcheck\": " << dcheck << ", \"dbad\": " << dbad << ", \"hash\": \"" << std::hex << hash << std::dec << "\", \"seconds\": " << now() - t0;
	w.extra(js); js << "}\n";
	return 0;
}
int main(int argc, char **argv) {
	int pers = personality(0xffffffff);
	if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !std::getenv("DPMSIM_REEXEC")) {
		setenv("DPMSIM_REEXEC", "1", 1);
		if (personality(unsigned(pers) | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
	}
	std::string mode = argc > 1 ? argv[1] : "", prop; profs = make_profiles();
	const char *ff = std::getenv("DPMSIM_FINDINGS");
	if (argc < 3 || (mode != "replay" && argc < 5)) return 3;
	if (mode == "replay") {
		std::ifstream f(argv[2]); std::stringstream b; b << f.rdbuf(); std::string text = b.str();
		auto q = text.find("property "); prop = text.substr(q + 9, text.find('\n', q) - q - 9);
	} else prop = argv[2];
	world_init(sim_config, ff ? load_findings(ff, prop) : std::vector<Finding>{});
	if (AltWorld *w = alt_world(prop)) return drive(TextWorld{*w}, mode, prop, argc, argv);
	return drive(MainWorld{*profile(prop)}, mode, prop, argc, argv);
}
