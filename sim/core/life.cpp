// Builds in which the simulator owns the life cycle: exit handlers registered by library code are kept for the schedule to run.
#include <atomic>
namespace sim { extern bool life_recording; struct LifeExit { void (*f)(void *); void *a; }; extern LifeExit life_exit[4096]; extern int life_exits; }
extern "C" {
int __real___cxa_atexit(void (*)(void *), void *, void *); int __real_atexit(void (*)());
int __wrap___cxa_atexit(void (*f)(void *), void *a, void *d) {
	if (!sim::life_recording) return __real___cxa_atexit(f, a, d);
	if (sim::life_exits < 4096) sim::life_exit[sim::life_exits++] = {f, a};
	return 0;
}
int __wrap_atexit(void (*f)()) {
	if (!sim::life_recording) return __real_atexit(f);
	if (sim::life_exits < 4096) sim::life_exit[sim::life_exits++] = {reinterpret_cast<void (*)(void *)>(f), nullptr};
	return 0;
}
}
