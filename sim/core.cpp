#include <fstream>
#include "internal.hpp"
#include <csignal>
#include <cerrno>
#include <dirent.h>
#include <fcntl.h>
#include <iostream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" {
pid_t __real_fork();
pid_t __real_waitpid(pid_t, int*, int);
int __real_close(int);
int __real_dup2(int, int);
void __real_exit(int) __attribute__((noreturn));
int __real_remove(const char*);
int simtool_vislcg3_main(int, char**);
int simtool_cg_conv_main(int, char**);
int simtool_cg_comp_main(int, char**);
int simtool_cg_proc_main(int, char**);
int simtool_cg_relabel_main(int, char**);
int simtool_cg_mwesplit_main(int, char**);
int simtool_cg_merge_annotations_main(int, char**);
int simtool_cg_annotate_main(int, char**);
}

namespace sim {

Shm* g_shm = nullptr;
const RunSpec* g_spec = nullptr;
uint64_t g_steps = 0, g_next = UINT64_MAX, g_limit = UINT64_MAX;
bool g_in_sim = false;
std::map<std::string, uint64_t> g_stats;
static std::string g_scratch;
static uint8_t g_dummy_cov[COV_CAP];
static uint8_t* g_cov = g_dummy_cov;
static uint32_t g_nguards = 0;

std::vector<Property>& properties() { static std::vector<Property> p; return p; }

const char* kind_name(Kind k) {
	switch (k) {
	case Kind::None: return "none";
	case Kind::Exit: return "exit";
	case Kind::Signal: return "signal";
	case Kind::Hang: return "hang";
	case Kind::Deadlock: return "deadlock";
	case Kind::Stop: return "stop";
	}
	return "?";
}
std::string RunOut::verdict() const {
	std::string r = kind_name(kind);
	if (kind == Kind::Exit || kind == Kind::Signal) { r += ":" + std::to_string(code); }
	return r;
}

// ---------------------------------------------------------------- escape ----
std::string esc(std::string_view s) {
	static const char* hex = "0123456789abcdef";
	std::string r;
	for (unsigned char c : s) {
		if (c == '\\') { r += "\\\\"; }
		else if (c == '\n') { r += "\\n"; }
		else if (c == '\t') { r += "\\t"; }
		else if (c == ' ') { r += "\\s"; }
		else if (c < 0x20 || c >= 0x7f) { r += "\\x"; r += hex[c >> 4]; r += hex[c & 15]; }
		else { r += static_cast<char>(c); }
	}
	return r;
}
std::string unesc(std::string_view s) {
	std::string r;
	for (size_t i = 0; i < s.size(); ++i) {
		if (s[i] != '\\' || i + 1 >= s.size()) { r += s[i]; continue; }
		char c = s[++i];
		if (c == 'n') { r += '\n'; }
		else if (c == 't') { r += '\t'; }
		else if (c == 's') { r += ' '; }
		else if (c == 'x' && i + 2 < s.size()) { r += static_cast<char>(std::stoi(std::string(s.substr(i + 1, 2)), nullptr, 16)); i += 2; }
		else { r += c; }
	}
	return r;
}

std::string Scenario::to_text() const {
	std::string r = "scenario 1\nprop " + prop + "\nseed " + std::to_string(seed) + "\n";
	for (auto& [k, v] : kv) { r += "kv " + esc(k) + " " + esc(v) + "\n"; }
	for (auto& o : ops) {
		r += "op " + esc(o.kind);
		for (auto& a : o.a) { r += " " + (a.empty() ? std::string("\\e") : esc(a)); }
		r += "\n";
	}
	return r + "end\n";
}
bool Scenario::from_text(const std::string& t, Scenario& sc) {
	sc = Scenario();
	bool ended = false;
	for (auto& line : split_lines(t)) {
		std::vector<std::string> w;
		size_t p = 0;
		while (p < line.size()) {
			size_t e = line.find(' ', p);
			if (e == std::string::npos) { e = line.size(); }
			if (e > p) { w.push_back(line.substr(p, e - p)); }
			p = e + 1;
		}
		if (w.empty() || w[0][0] == '#') { continue; }
		if (w[0] == "prop" && w.size() > 1) { sc.prop = w[1]; }
		else if (w[0] == "seed" && w.size() > 1) { sc.seed = strtoull(w[1].c_str(), nullptr, 10); }
		else if (w[0] == "kv" && w.size() > 1) { sc.kv[unesc(w[1])] = w.size() > 2 ? unesc(w[2]) : ""; }
		else if (w[0] == "op" && w.size() > 1) {
			Op o(unesc(w[1]));
			for (size_t i = 2; i < w.size(); ++i) { o.a.push_back(w[i] == "\\e" ? "" : unesc(w[i])); }
			sc.ops.push_back(std::move(o));
		}
		else if (w[0] == "end") { ended = true; }
	}
	return ended && !sc.prop.empty();
}

std::vector<std::string> split_lines(std::string_view s) {
	std::vector<std::string> r;
	size_t p = 0;
	while (p < s.size()) {
		size_t e = s.find('\n', p);
		if (e == std::string_view::npos) { e = s.size(); }
		r.emplace_back(s.substr(p, e - p));
		p = e + 1;
	}
	return r;
}
std::string strip_blank(std::string_view s) {
	std::string r;
	size_t p = 0;
	while (p < s.size()) {
		size_t e = s.find('\n', p);
		bool nl = e != std::string_view::npos;
		if (!nl) { e = s.size(); }
		if (e > p) { r.append(s.substr(p, e - p)); if (nl) { r += '\n'; } }
		p = e + 1;
	}
	return r;
}
std::string diff_summary(std::string_view a, std::string_view b) {
	size_t i = 0;
	while (i < a.size() && i < b.size() && a[i] == b[i]) { ++i; }
	size_t from = i > 60 ? i - 60 : 0;
	std::string r = "first difference at byte " + std::to_string(i) + " (sizes " + std::to_string(a.size()) + " vs " + std::to_string(b.size()) + "): ..." + esc(a.substr(from, i - from)) + " | A: " + esc(a.substr(i, 80)) + " | B: " + esc(b.substr(i, 80));
	return r;
}

// ------------------------------------------------------------- in-process ----
namespace in {
static uint32_t clampcat(char* buf, uint64_t& len, size_t cap, std::string_view s) {
	size_t n = std::min<size_t>(s.size(), cap - len);
	memcpy(buf + len, s.data(), n);
	len += n;
	return static_cast<uint32_t>(n);
}
HarnessScope::HarnessScope() : prev(g_alloc_bypass) { g_alloc_bypass = 1; }
HarnessScope::~HarnessScope() { g_alloc_bypass = prev; }
void log(const std::string& s) {
	HarnessScope h;
	g_shm->log_hash = hash_str(s, g_shm->log_hash ^ 0x9E37);
	clampcat(g_shm->log, g_shm->log_len, LOG_CAP, s);
	clampcat(g_shm->log, g_shm->log_len, LOG_CAP, "\n");
}
void note(const std::string& s) {
	HarnessScope h;
	g_shm->log_hash = hash_str(s, g_shm->log_hash ^ 0x7F4A);
	clampcat(g_shm->note, g_shm->note_len, NOTE_CAP, s);
	clampcat(g_shm->note, g_shm->note_len, NOTE_CAP, "\n");
}
void count(const char* name, uint64_t n) {
	for (uint32_t i = 0; i < g_shm->n_counters; ++i) {
		if (!strcmp(g_shm->counters[i].name, name)) { g_shm->counters[i].n += n; return; }
	}
	if (g_shm->n_counters < 96) {
		auto& c = g_shm->counters[g_shm->n_counters++];
		snprintf(c.name, sizeof(c.name), "%s", name);
		c.n = n;
	}
}
void emit(std::string_view s) { clampcat(g_shm->out, g_shm->out_len, OUT_CAP, s); }
void emit_err(std::string_view s) { clampcat(g_shm->err, g_shm->err_len, ERR_CAP, s); }
void stop(Kind k) {
	g_shm->kind = static_cast<uint32_t>(k);
	g_shm->steps = g_steps;
	__real__exit(99);
}
uint64_t now_us() { return g_shm->sim_us; }
void advance_us(uint64_t n) { g_shm->sim_us += n; }
}

// ------------------------------------------------------------------- run ----
static __attribute__((noinline)) void fill_stack(uint32_t pat) {
	// Whatever the tool finds in uninitialised automatic storage is chosen by the scenario.
	char buf[400000];
	memset(buf, static_cast<int>(pat & 0xff), sizeof(buf));
	asm volatile("" : : "r"(buf) : "memory");
}

static int tool_main(const std::string& t, int argc, char** argv) {
	if (t == "vislcg3") { return simtool_vislcg3_main(argc, argv); }
	if (t == "cg-conv") { return simtool_cg_conv_main(argc, argv); }
	if (t == "cg-comp") { return simtool_cg_comp_main(argc, argv); }
	if (t == "cg-proc") { return simtool_cg_proc_main(argc, argv); }
	if (t == "cg-relabel") { return simtool_cg_relabel_main(argc, argv); }
	if (t == "cg-mwesplit") { return simtool_cg_mwesplit_main(argc, argv); }
	if (t == "cg-merge-annotations") { return simtool_cg_merge_annotations_main(argc, argv); }
	if (t == "cg-annotate") { return simtool_cg_annotate_main(argc, argv); }
	fprintf(stderr, "simulator: unknown tool %s\n", t.c_str());
	__real__exit(98);
}

static int g_err_fd = -1;

std::string g_dump_dir;
static void dump_run(const RunSpec& spec) { // for looking at a scenario with the shipped binaries
	static int n = 0;
	std::string d = g_dump_dir, b, in = "in" + (n ? std::to_string(n) : std::string());
	++n;
	std::ofstream(d + "/" + in, std::ios::binary) << spec.in;
	for (auto f : {"g.cg3", "g.bin", "g.rel"}) { if (fs_get(f, b)) { std::ofstream(d + "/" + f, std::ios::binary) << b; } }
	printf("/repo/build/src/%s", spec.tool.c_str());
	for (auto& a : spec.argv) { printf(" %s", a.c_str()); }
	printf(" < %s\n", in.c_str());
	fflush(stdout);
}

RunOut run(const RunSpec& spec) {
	if (!g_dump_dir.empty()) { dump_run(spec); }
	size_t head = offsetof(Shm, cov);
	memset(g_shm, 0, head);
	memset(g_shm->cov, 0, g_nguards + 1);
	g_shm->log_hash = 0xcbf29ce484222325ull;
	if (ftruncate(g_err_fd, 0)) {}
	lseek(g_err_fd, 0, SEEK_SET);

	fflush(stdout);
	fflush(stderr);
	pid_t pid = __real_fork();
	if (pid < 0) { perror("simulator: fork"); __real__exit(97); }
	if (pid == 0) {
		rlimit rl{60, 60};
		setrlimit(RLIMIT_CPU, &rl);
		rl = {0, 0};
		setrlimit(RLIMIT_CORE, &rl);
		rl = {12ull << 30, 12ull << 30};
		setrlimit(RLIMIT_AS, &rl);
		signal(SIGPIPE, SIG_DFL);
		int nul = open("/dev/null", O_RDWR);
		__real_dup2(nul, 0);
		__real_dup2(nul, 1);
		__real_dup2(g_err_fd, 2);
		clearenv();
		setenv("PATH", "/nonexistent", 1);
		setenv("LC_ALL", "C.UTF-8", 1);
		for (auto& [k, v] : spec.env) { setenv(k.c_str(), v.c_str(), 1); }
		std::vector<std::string> args;
		args.push_back(spec.tool);
		for (auto& a : spec.argv) { args.push_back(a); }
		std::vector<char*> argv;
		for (auto& a : args) { argv.push_back(a.data()); }
		argv.push_back(nullptr);
		g_spec = &spec;
		g_in_sim = true;
		g_cov = spec.cov ? g_shm->cov : g_dummy_cov;
		g_steps = 0;
		g_limit = spec.step_limit;
		seams_begin(spec);
		extproc_begin(spec.proc);
		alloc_begin(spec.alloc_mode, spec.alloc_seed, spec.alloc_fill, spec.alloc_policy, spec.oom_at, spec.oom_count);
		fill_stack(spec.stack_fill);
		g_next = g_limit;
		int rv = spec.body ? spec.body() : tool_main(spec.tool, static_cast<int>(args.size()), argv.data());
		g_shm->steps = g_steps;
		__real_exit(rv & 0xff);
	}
	int st = 0;
	while (__real_waitpid(pid, &st, 0) < 0 && errno == EINTR) {}

	RunOut r;
	r.kind = static_cast<Kind>(g_shm->kind);
	if (r.kind == Kind::None) {
		if (WIFEXITED(st)) { r.kind = Kind::Exit; r.code = WEXITSTATUS(st); }
		else { r.kind = Kind::Signal; r.code = WTERMSIG(st); }
		if (r.kind == Kind::Signal && (r.code == SIGXCPU || r.code == SIGKILL)) { r.kind = Kind::Hang; r.code = 0; }
	}
	r.out.assign(g_shm->out, g_shm->out_len);
	r.err.assign(g_shm->err, g_shm->err_len);
	off_t el = lseek(g_err_fd, 0, SEEK_END);
	if (el > 0) {
		std::string e(std::min<off_t>(el, 65536), 0);
		auto n = pread(g_err_fd, e.data(), e.size(), 0);
		if (n > 0) { r.err.append(e.data(), n); }
	}
	r.in_read = g_shm->in_read;
	r.steps = g_shm->steps;
	r.sim_us = g_shm->sim_us;
	r.log_hash = g_shm->log_hash;
	r.out_failed = g_shm->out_failed;
	r.oom_fired = g_shm->oom_fired;
	r.n_alloc = g_shm->n_alloc;
	uint64_t h = 1469598103934665603ull;
	auto w = reinterpret_cast<const uint64_t*>(g_shm->cov);
	for (size_t i = 0; i < g_nguards / 8 + 1; ++i) { h = (h ^ w[i]) * 0x100000001b3ull; h ^= h >> 29; }
	r.cov_hash = h;
	r.waits.assign(g_shm->waits, g_shm->waits + g_shm->n_waits);
	r.log = split_lines(std::string_view(g_shm->log, g_shm->log_len));
	r.notes = split_lines(std::string_view(g_shm->note, g_shm->note_len));
	for (uint32_t i = 0; i < g_shm->n_counters; ++i) {
		r.counters[g_shm->counters[i].name] += g_shm->counters[i].n;
		g_stats[std::string("c.") + g_shm->counters[i].name] += g_shm->counters[i].n;
	}
	g_stats["runs"]++;
	g_stats["sim_us"] += r.sim_us;
	g_stats["steps"] += r.steps;
	g_stats["verdict." + r.verdict()]++;
	return r;
}

// ----------------------------------------------------------- scratch files ---
static void rm_tree(const std::string& d) {
	if (d.rfind("/tmp/cg3sim.", 0) != 0) { return; }
	DIR* dp = opendir(d.c_str());
	if (!dp) { return; }
	while (auto e = readdir(dp)) {
		std::string n = e->d_name;
		if (n == "." || n == "..") { continue; }
		unlink((d + "/" + n).c_str());
	}
	closedir(dp);
	rmdir(d.c_str());
}
const std::string& scratch_dir() { return g_scratch; }
void fs_put(const std::string& name, std::string_view data) {
	int fd = open((g_scratch + "/" + name).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
	size_t o = 0;
	while (o < data.size()) {
		auto n = pwrite(fd, data.data() + o, data.size() - o, o);
		if (n <= 0) { perror("simulator: fs_put"); __real__exit(97); }
		o += n;
	}
	__real_close(fd);
}
bool fs_get(const std::string& name, std::string& data) {
	data.clear();
	int fd = open((g_scratch + "/" + name).c_str(), O_RDONLY);
	if (fd < 0) { return false; }
	char buf[65536];
	ssize_t n, o = 0;
	while ((n = pread(fd, buf, sizeof(buf), o)) > 0) { data.append(buf, n); o += n; }
	__real_close(fd);
	return true;
}
void fs_del(const std::string& name) { unlink((g_scratch + "/" + name).c_str()); }

void init_runtime() {
	g_shm = static_cast<Shm*>(mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	if (g_shm == MAP_FAILED) { perror("mmap"); __real__exit(97); }
	g_scratch = "/tmp/cg3sim." + std::to_string(getpid());
	rm_tree(g_scratch);
	if (mkdir(g_scratch.c_str(), 0755) || chdir(g_scratch.c_str())) { perror("simulator: scratch"); __real__exit(97); }
	g_err_fd = memfd_create("cg3sim-err", 0);
}
void cleanup_runtime() { rm_tree(g_scratch); }

} // namespace sim

// -------------------------------------------------- basic block callbacks ----
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop) {
	if (start == stop || *start) { return; }
	for (uint32_t* p = start; p < stop; ++p) { *p = ++sim::g_nguards; }
	if (sim::g_nguards >= sim::COV_CAP) { fprintf(stderr, "simulator: too many guards\n"); abort(); }
}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t* g) {
	sim::g_cov[*g] = 1;
	if (++sim::g_steps >= sim::g_next) { sim::sched_slow(); }
}
// Stores: places where threads may meet are where the baton is best taken away
extern "C" {
void __sanitizer_cov_store1(uint8_t* a) { if (sim::g_threads_on) { sim::sched_store(reinterpret_cast<uintptr_t>(a)); } }
void __sanitizer_cov_store2(uint16_t* a) { if (sim::g_threads_on) { sim::sched_store(reinterpret_cast<uintptr_t>(a)); } }
void __sanitizer_cov_store4(uint32_t* a) { if (sim::g_threads_on) { sim::sched_store(reinterpret_cast<uintptr_t>(a)); } }
void __sanitizer_cov_store8(uint64_t* a) { if (sim::g_threads_on) { sim::sched_store(reinterpret_cast<uintptr_t>(a)); } }
void __sanitizer_cov_store16(__int128* a) { if (sim::g_threads_on) { sim::sched_store(reinterpret_cast<uintptr_t>(a)); } }
}
