#include "world.hpp"
using namespace sim;
std::vector<Profile> make_profiles() {
	std::vector<Profile> v;
	{ Profile p; p.name = "S01"; p.pool = 2; p.p_heavy = 40; p.mon = MON_ISO; p.thr_lo = 2; p.thr_hi = 4; p.step_lo = 2; p.step_hi = 5; p.focus = 2; p.p_sched = 100; p.p_intr = 35; p.p_dirty = 50; p.p_reg = 10; v.push_back(p); }
	{ Profile p; p.name = "S02"; p.mon = MON_ENV; p.thr_lo = 1; p.thr_hi = 3; p.step_lo = 6; p.step_hi = 16; p.p_sched = 30; p.p_intr = 15; p.p_dirty = 30; p.p_reg = 30; p.envmode = 1; p.any_domain = false; v.push_back(p); }
	{ Profile p; p.name = "S03"; p.mon = MON_MODEL | MON_ENV; p.thr_lo = 1; p.thr_hi = 2; p.step_lo = 8; p.step_hi = 20; p.p_sched = 25; p.p_intr = 10; p.p_dirty = 30; p.p_reg = 40; p.envmode = 3; v.push_back(p); }
	for (auto *n : {"S06", "S07", "S11", "S12", "S14", "S15", "S16"}) { Profile p; p.name = n; p.mon = MON_MODEL; p.thr_lo = 1; p.thr_hi = 2; p.step_lo = 8; p.step_hi = 24; p.p_sched = 20; p.p_intr = 5; p.p_dirty = 50; p.p_reg = 60; v.push_back(p); }
	{ Profile p; p.name = "S08"; p.mon = MON_REL; p.thr_lo = 1; p.thr_hi = 1; p.step_lo = 6; p.step_hi = 12; p.p_dirty = 70; p.p_reg = 20; p.p_rel = 100; v.push_back(p); }
	{ Profile p; p.name = "S10"; p.mon = MON_BOUND; p.thr_lo = 1; p.thr_hi = 1; p.step_lo = 6; p.step_hi = 12; p.p_dirty = 50; p.p_reg = 30; p.envmode = 1; p.step_all = true; v.push_back(p); }
	{ Profile p; p.name = "S17"; p.pool = 2; p.p_heavy = 40; p.mon = MON_ISO; p.life = true; p.thr_lo = 1; p.thr_hi = 3; p.step_lo = 2; p.step_hi = 6; p.focus = 3; p.p_sched = 40; p.p_intr = 15; p.p_dirty = 40; p.p_reg = 10; v.push_back(p); }
	{ Profile p; p.name = "S18"; p.pool = 2; p.p_heavy = 65; p.mon = MON_ISO | MON_ENV; p.thr_lo = 1; p.thr_hi = 3; p.step_lo = 3; p.step_hi = 8; p.focus = 2; p.p_sched = 40; p.p_intr = 30; p.p_dirty = 40; p.p_reg = 10; p.p_kill = 50; v.push_back(p); }
	return v;
}
