// State shared between the simulator's translation units (inside a simulated process).
#pragma once
#include "core.hpp"

namespace sim {
extern std::string g_dump_dir;

constexpr size_t OUT_CAP = 24u << 20, ERR_CAP = 2u << 20, LOG_CAP = 1u << 20, NOTE_CAP = 4u << 20;
constexpr size_t MAX_WAITS = 4096, COV_CAP = 1u << 18;

struct Shm {
	uint32_t kind;
	uint64_t steps, sim_us, log_hash, in_read;
	uint64_t out_len, err_len, log_len, note_len;
	uint64_t n_alloc;
	uint32_t n_waits, out_failed, oom_fired, n_counters;
	FlushEv waits[MAX_WAITS];
	struct C { char name[40]; uint64_t n; } counters[96];
	uint8_t cov[COV_CAP];
	char out[OUT_CAP], err[ERR_CAP], log[LOG_CAP], note[NOTE_CAP];
};
extern Shm* g_shm;
extern const RunSpec* g_spec;   // non-null only inside a simulated process
extern uint64_t g_steps, g_next, g_limit;
extern bool g_in_sim;

// alloc.cpp
void alloc_begin(uint32_t mode, uint64_t seed, uint32_t fill, uint32_t policy, int64_t oom_at, int64_t oom_count);
extern int g_alloc_bypass;
// seams.cpp
void seams_begin(const RunSpec&);
void sqlite_begin(const RunSpec&);
// sched.cpp
void sched_slow();
void sched_store(uintptr_t addr);
bool in_sim_heap(uintptr_t addr);
extern bool g_threads_on;
// extproc.cpp
void extproc_begin(const ProcPlan&);

} // namespace sim

extern "C" void __real__exit(int) __attribute__((noreturn));
