// Deterministic simulator core: PRNG, scenarios, simulated process runs.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <string_view>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- PRNG ------
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
	uint64_t next() { // splitmix64
		uint64_t z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	int64_t range(int64_t a, int64_t b) { return a + static_cast<int64_t>(below(static_cast<uint64_t>(b - a + 1))); }
	bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
	template<typename T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
	Rng fork() { return Rng(next()); }
};

inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ull) {
	auto b = static_cast<const unsigned char*>(p);
	for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 0x100000001b3ull; }
	return h;
}
inline uint64_t hash_str(std::string_view s, uint64_t h = 0xcbf29ce484222325ull) { return hash_bytes(s.data(), s.size(), h); }
inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a ^ (b * 0x9E3779B97F4A7C15ull)); return r.next(); }

// ------------------------------------------------------------ scenarios -----
// A scenario is the complete, explicit description of one simulated execution:
// a flat list of operations (what the clients do, how bytes are delivered, which
// faults fire where).  It is generated from a seed, executed as a pure function,
// written to a replay file, and shrunk by dropping/simplifying operations.
struct Op {
	std::string kind;
	std::vector<std::string> a;
	Op() = default;
	Op(std::string k) : kind(std::move(k)) {}
	template<typename... A> Op(std::string k, A... args) : kind(std::move(k)), a{tostr(args)...} {}
	static std::string tostr(const std::string& s) { return s; }
	static std::string tostr(const char* s) { return s; }
	template<typename T> static std::string tostr(T v) { return std::to_string(v); }
	int64_t i(size_t n, int64_t d = 0) const { return n < a.size() && !a[n].empty() ? strtoll(a[n].c_str(), nullptr, 10) : d; }
	const std::string& s(size_t n) const { static const std::string e; return n < a.size() ? a[n] : e; }
	bool operator==(const Op& o) const { return kind == o.kind && a == o.a; }
};

struct Scenario {
	std::string prop;
	uint64_t seed = 0;
	std::map<std::string, std::string> kv;
	std::vector<Op> ops;

	int64_t geti(const std::string& k, int64_t d = 0) const { auto it = kv.find(k); return it == kv.end() ? d : strtoll(it->second.c_str(), nullptr, 10); }
	std::string gets(const std::string& k, std::string d = "") const { auto it = kv.find(k); return it == kv.end() ? d : it->second; }
	void set(const std::string& k, const std::string& v) { kv[k] = v; }
	void set(const std::string& k, int64_t v) { kv[k] = std::to_string(v); }
	std::string to_text() const;
	static bool from_text(const std::string&, Scenario&);
};

std::string esc(std::string_view);   // printable escape used by scenario files and reports
std::string unesc(std::string_view);

// ------------------------------------------------------- simulated tool run --
enum class Kind : uint32_t { None, Exit, Signal, Hang, Deadlock, Stop };
const char* kind_name(Kind);

struct InSeg {            // one interactive client turn: bytes, then the client waits for a reply
	std::string data;
	bool wait_reply = false;
};

struct ProcPlan {         // behaviour of the simulated external program (see extproc.cpp)
	uint64_t seed = 1;
	std::string mode = "null"; // null|echo|addtag|...
	int64_t fault_window = -1;  // at which request the fault fires
	std::string fault;          // "", die_before, die_after_read, die_mid_reply, wrong_window, ...
	uint32_t pipe_cap = 65536;
	bool partial = false;       // partial reads/writes on the pipes
	int64_t fail_fork = 0, fail_pipe = 0;
};

struct FsFault {
	std::string path;    // suffix of the path
	std::string op;      // read|write
	int64_t at = 0;      // byte offset (within the descriptor's traffic) at which it fires
	std::string kind;    // eio|enospc|short|trunc
};

struct RunSpec {
	std::string tool;                     // "" = body
	std::vector<std::string> argv;
	std::map<std::string, std::string> env;
	std::string in;
	std::vector<uint32_t> chunks;         // sizes of successive deliveries (cycled); empty = all at once
	std::vector<size_t> stops;            // client turns: offsets in `in` where the client awaits a reply
	bool in_error_at_end = false;         // the stream ends with a read error rather than EOF
	bool untie = false;                   // std::cin not tied to std::cout (library use)
	uint32_t outbuf = 4096;               // stdio-like buffer in front of stdout
	int64_t out_fail_at = -1;             // stdout fails after this many bytes reached the device
	std::string out_fail_kind;            // enospc | epipe | eio_once
	// process environment
	uint32_t alloc_mode = 1;              // 0 libc, 1 seeded arena
	uint64_t alloc_seed = 1;
	uint32_t alloc_fill = 0xA5;           // 256 = random
	uint32_t alloc_policy = 0;            // 0 lifo, 1 fifo, 2 random, 3 lifo with guard pages
	int64_t oom_at = -1;                  // n-th operator new fails (armed from the start of main)
	int64_t oom_count = 1;
	int64_t epoch = 1700000000;
	uint64_t rand_seed = 1;
	uint32_t stack_fill = 0x5A;
	ProcPlan proc;
	std::vector<FsFault> fs;
	std::string sq_fault;                 // sqlite VFS fault: "", read, write, open
	int64_t sq_at = -1;                   // n-th sqlite VFS call of that kind
	uint64_t step_limit = 60000000ull;
	bool cov = true;
	std::function<int()> body;            // alternative to tool: code run in the simulated process
};

struct FlushEv { uint64_t out; uint64_t in; };

struct RunOut {
	Kind kind = Kind::None;
	int code = 0;                         // exit code or signal
	std::string out, err;                 // everything written (out = what reached the device)
	uint64_t in_read = 0;                 // bytes of input handed to the tool
	uint64_t steps = 0;
	uint64_t sim_us = 0;                  // simulated time
	uint64_t log_hash = 0;
	uint64_t cov_hash = 0;                // hash of the set of basic blocks reached
	std::vector<FlushEv> waits;           // at each client wait: visible output / input consumed
	std::vector<std::string> log;         // event log (textual, bounded)
	std::vector<std::string> notes;       // reported by seams (protocol violations ...)
	std::map<std::string, uint64_t> counters;
	bool out_failed = false;              // an output fault actually fired
	bool oom_fired = false;
	uint64_t n_alloc = 0; // allocations made
	std::string verdict() const;          // "exit:0", "signal:6", "hang" ...
	bool ok() const { return kind == Kind::Exit && code == 0; }
};

RunOut run(const RunSpec&);

// files in the scratch directory of the current worker (cwd of simulated runs)
void fs_put(const std::string& name, std::string_view data);
bool fs_get(const std::string& name, std::string& data);
void fs_del(const std::string& name);
const std::string& scratch_dir();
void init_runtime();                      // once per process
void cleanup_runtime();

// counters for evidence, kept per worker
extern std::map<std::string, uint64_t> g_stats;
inline void stat(const std::string& k, uint64_t n = 1) { g_stats[k] += n; }

// -- callable from the code running inside a simulated process ---------------
namespace in {
void log(const std::string& s);           // event log (hashed)
void note(const std::string& s);          // something an oracle should look at
void count(const char* name, uint64_t n = 1);
void emit(std::string_view s);            // append to the run's `out`
void emit_err(std::string_view s);
[[noreturn]] void stop(Kind k);
uint64_t now_us();
void advance_us(uint64_t);
struct HarnessScope { HarnessScope(); ~HarnessScope(); int prev; }; // allocator passthrough, no preemption
// cooperative threads (baton passing); schedule decided by seed
void threads_begin(uint64_t seed, uint32_t mean_steps, uint32_t max_switches, bool directed = false);
int thread_spawn(std::function<void()> fn);
void threads_run();                       // run all to completion under the seeded scheduler
void yield();                             // scheduling point
void block_until(const std::function<bool()>& ready, const char* why); // deadlock detected => Kind::Deadlock
uint64_t switches();
}

// ------------------------------------------------------------ properties ----
struct Verdict {
	bool violated = false;
	std::string cls;       // violation class (kept stable while shrinking)
	std::string detail;
	uint64_t hash = 0;     // hash over the full event history of the scenario
	uint64_t state = 0;    // signature of the state/interleaving reached
	bool trivial = false;  // the scenario exercised nothing relevant
	uint64_t sim_us = 0;
	void fail(const std::string& c, const std::string& d) { if (!violated) { violated = true; cls = c; detail = d; } }
	void absorb(const RunOut& r) {
		hash = mix(hash, r.log_hash);
		hash = mix(hash, hash_str(r.out));
		hash = mix(hash, static_cast<uint64_t>(r.kind) * 1000 + static_cast<uint64_t>(r.code));
		state = mix(state, r.cov_hash);
		sim_us += r.sim_us;
	}
};

struct Property {
	std::string id;
	std::function<Scenario(uint64_t seed, bool thorough)> gen;
	std::function<Verdict(const Scenario&)> exec;
};
std::vector<Property>& properties();
struct Register { Register(Property p) { properties().push_back(std::move(p)); } };

// text helpers
std::vector<std::string> split_lines(std::string_view);
std::string diff_summary(std::string_view a, std::string_view b);
std::string strip_blank(std::string_view); // drop empty lines

} // namespace sim
