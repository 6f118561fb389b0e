// Cooperative scheduler: real threads, but exactly one holds the baton, and the
// seed decides after how many basic blocks it is taken away and who gets it next.
#include "internal.hpp"
#include <pthread.h>
#include <semaphore.h>

extern "C" {
int __real___cxa_guard_acquire(uint64_t*);
void __real___cxa_guard_release(uint64_t*);
void __real___cxa_guard_abort(uint64_t*);
}

namespace sim {
bool g_threads_on = false;

namespace {
struct Th {
	pthread_t pt;
	sem_t sem;
	std::function<void()> fn;
	const std::function<bool()>* ready = nullptr;
	bool started = false, finishing = false, done = false;
	int id = 0;
	int bypass = 0; // allocator passthrough belongs to the thread
};
std::vector<Th*> ths;
Th* cur = nullptr;
sem_t sched_sem;
Rng rng(1);
uint32_t mean = 1000, max_sw = 0;
uint64_t nsw = 0;
size_t n_left = 0;
int no_preempt = 0;
std::vector<uint64_t*> guards_busy;

void arm() {
	if (nsw >= max_sw || n_left < 2) { g_next = g_limit; return; }
	// geometric-ish interval with occasional very short bursts
	uint64_t d = rng.chance(0.15) ? 1 + rng.below(20) : 1 + rng.below(2ull * mean);
	g_next = std::min(g_limit, g_steps + d);
}
void to_sched() { // give the baton back
	Th* t = cur;
	sem_post(&sched_sem);
	while (sem_wait(&t->sem)) {}
}
void* th_main(void* p) {
	Th* t = static_cast<Th*>(p);
	while (sem_wait(&t->sem)) {}
	t->fn();
	t->finishing = true; // thread_local destructors run next, undisturbed
	no_preempt = 1;
	sem_post(&sched_sem);
	return nullptr;
}
} // namespace

extern "C" char __data_start, _end;
static std::vector<uint8_t> writer(1 << 18);
static bool conflicts = false;
void sched_store(uintptr_t a) {
	if (!conflicts || !cur || cur->finishing || g_alloc_bypass || no_preempt || nsw >= max_sw || n_left < 2) { return; }
	if (a >= reinterpret_cast<uintptr_t>(&__data_start) && a < reinterpret_cast<uintptr_t>(&_end)) { // static storage, not of one thread
		if (rng.chance(0.3)) { in::count("sched.preempted_at_static_store"); in::yield(); }
		return;
	}
	if (!in_sim_heap(a)) { return; } // stacks lie where the process happens to have room
	auto& w = writer[(a >> 3) & (writer.size() - 1)];
	uint8_t me = static_cast<uint8_t>(cur->id + 1), was = w;
	w = me;
	if (was && was != me && rng.chance(0.02)) { in::count("sched.preempted_at_heap_store"); in::yield(); }
}
void sched_slow() {
	if (g_steps >= g_limit) { in::stop(Kind::Hang); }
	if (!g_threads_on || !cur || cur->finishing || g_alloc_bypass || no_preempt) { g_next = std::min(g_limit, g_steps + 50); return; }
	in::yield();
}

namespace in {
void threads_begin(uint64_t seed, uint32_t mean_steps, uint32_t max_switches, bool directed) {
	rng = Rng(seed ^ 0x5C4ED);
	mean = mean_steps ? mean_steps : 1;
	max_sw = max_switches;
	conflicts = directed;
	std::fill(writer.begin(), writer.end(), 0);
	nsw = 0;
	sem_init(&sched_sem, 0, 0);
	g_threads_on = true;
}
int thread_spawn(std::function<void()> fn) {
	HarnessScope h;
	Th* t = new Th;
	t->fn = std::move(fn);
	t->id = static_cast<int>(ths.size());
	sem_init(&t->sem, 0, 0);
	ths.push_back(t);
	return t->id;
}
uint64_t switches() { return nsw; }
void yield() {
	if (!g_threads_on || !cur) { return; }
	to_sched();
}
void block_until(const std::function<bool()>& ready, const char* why) {
	if (ready()) { return; }
	if (!g_threads_on || !cur) {
		in::log(std::string("deadlock: ") + why);
		in::stop(Kind::Deadlock);
	}
	cur->ready = &ready;
	to_sched();
	cur->ready = nullptr;
}
void threads_run() {
	std::vector<Th*> run;
	Th* last = nullptr;
	for (;;) {
		g_alloc_bypass = 1;
		run.clear();
		bool left = false;
		n_left = 0;
		for (auto t : ths) {
			if (t->done) { continue; }
			left = true;
			++n_left;
			if (!t->ready || (*t->ready)()) { run.push_back(t); }
		}
		if (!left) { break; }
		if (run.empty()) { in::log("deadlock: no runnable thread"); in::stop(Kind::Deadlock); }
		Th* t = run[rng.below(run.size())];
		if (t != last && last) {
			++nsw;
			g_shm->log_hash = mix(g_shm->log_hash, g_steps * 31 + static_cast<uint64_t>(t->id));
		}
		last = t;
		cur = t;
		arm();
		if (!t->started) {
			t->started = true;
			if (pthread_create(&t->pt, nullptr, th_main, t)) { fprintf(stderr, "simulator: pthread_create\n"); __real__exit(97); }
		}
		g_alloc_bypass = t->bypass;
		sem_post(&t->sem);
		// wait for the baton: either the thread yields, or it is finishing and we join it
		while (sem_wait(&sched_sem)) {}
		t->bypass = g_alloc_bypass;
		g_alloc_bypass = 1;
		if (t->finishing) {
			pthread_join(t->pt, nullptr);
			t->done = true;
			no_preempt = 0;
			last = nullptr;
		}
		cur = nullptr;
	}
	g_alloc_bypass = 0;
	g_threads_on = false;
	g_next = g_limit;
}
} // namespace in
} // namespace sim

// Function-local statics: never let a baton holder block for real on another
// parked thread's initialisation.
extern "C" int __wrap___cxa_guard_acquire(uint64_t* g) {
	using namespace sim;
	if (!g_threads_on) { return __real___cxa_guard_acquire(g); }
	for (;;) {
		if (*reinterpret_cast<volatile char*>(g)) { return 0; }
		bool busy = false;
		for (auto b : guards_busy) { busy |= (b == g); }
		if (!busy) { break; }
		in::yield();
	}
	in::HarnessScope h;
	guards_busy.push_back(g);
	return 1;
}
extern "C" void __wrap___cxa_guard_release(uint64_t* g) {
	using namespace sim;
	for (size_t i = 0; i < guards_busy.size(); ++i) {
		if (guards_busy[i] == g) {
			guards_busy.erase(guards_busy.begin() + static_cast<long>(i));
			*reinterpret_cast<volatile char*>(g) = 1;
			return;
		}
	}
	__real___cxa_guard_release(g);
}
extern "C" void __wrap___cxa_guard_abort(uint64_t* g) {
	using namespace sim;
	for (size_t i = 0; i < guards_busy.size(); ++i) {
		if (guards_busy[i] == g) { guards_busy.erase(guards_busy.begin() + static_cast<long>(i)); return; }
	}
	__real___cxa_guard_abort(g);
}
