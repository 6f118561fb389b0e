// Driver: batches of seeded scenarios, replay, minimisation.
#include "internal.hpp"
#include "workload.hpp"
#include <algorithm>
#include <csignal>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/personality.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

using namespace sim;

static double wall() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return static_cast<double>(t.tv_sec) + static_cast<double>(t.tv_nsec) * 1e-9; }
static std::string jesc(const std::string& s) {
	std::string r = "\"";
	for (unsigned char c : s) {
		char b[8];
		if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
		else if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof(b), "\\u%04x", c); r += b; }
		else { r += static_cast<char>(c); }
	}
	return r + "\"";
}
static Property* find_prop(const std::string& id) {
	for (auto& p : properties()) { if (p.id == id) { return &p; } }
	fprintf(stderr, "simulator: unknown property %s\n", id.c_str());
	exit(2);
}
static uint64_t scenario_seed(uint64_t base, uint64_t i) { return mix(mix(base, 0xC63), i) >> 1; }

static std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }

static int cmd_batch(int c, char** v) {
	// batch <prop> <base seed> <first> <stride> <seconds> <maxcount> <tier> <out.json> <hashes.bin>
	if (c < 9) { return 2; }
	auto p = find_prop(v[0]);
	uint64_t base = strtoull(v[1], nullptr, 10), i = strtoull(v[2], nullptr, 10), stride = strtoull(v[3], nullptr, 10);
	double secs = atof(v[4]), t0 = wall();
	uint64_t maxc = strtoull(v[5], nullptr, 10);
	bool thorough = std::string(v[6]) == "thorough";
	uint64_t n = 0, nontriv = 0, sim_us = 0;
	std::vector<uint64_t> states, hashes;
	std::map<std::string, std::pair<uint64_t, std::string>> viol; // class -> seed, detail
	std::vector<std::string> samples;
	while (n < maxc && wall() - t0 < secs && viol.size() < 60) {
		uint64_t seed = scenario_seed(base, i);
		i += stride;
		Scenario sc = p->gen(seed, thorough);
		sc.prop = p->id;
		sc.seed = seed;
		Verdict vd = p->exec(sc);
		++n;
		sim_us += vd.sim_us;
		hashes.push_back(seed);
		hashes.push_back(vd.hash);
		if (!vd.trivial) {
			++nontriv;
			states.push_back(vd.state);
			if (samples.size() < 2 && vd.hash % 7 == 0) { samples.push_back(sc.to_text().substr(0, 1500)); }
		}
		if (vd.violated && !viol.count(vd.cls)) { viol[vd.cls] = {seed, vd.detail}; }
	}
	std::sort(states.begin(), states.end());
	states.erase(std::unique(states.begin(), states.end()), states.end());
	std::ofstream o(v[7]);
	o << "{\"scenarios\":" << n << ",\"nontrivial\":" << nontriv << ",\"sim_us\":" << sim_us << ",\"wall\":" << wall() - t0 << ",\"stats\":{";
	bool first = true;
	for (auto& [k, x] : g_stats) { o << (first ? "" : ",") << jesc(k) << ":" << x; first = false; }
	o << "},\"samples\":[";
	first = true;
	for (auto& s : samples) { o << (first ? "" : ",") << jesc(s); first = false; }
	o << "],\"violations\":[";
	first = true;
	for (auto& [k, x] : viol) { o << (first ? "" : ",") << "{\"cls\":" << jesc(k) << ",\"seed\":" << x.first << ",\"detail\":" << jesc(x.second.substr(0, 3000)) << "}"; first = false; }
	o << "]}\n";
	o.close();
	std::ofstream hb(v[8], std::ios::binary);
	uint64_t ns = states.size();
	hb.write(reinterpret_cast<char*>(&ns), 8);
	hb.write(reinterpret_cast<char*>(states.data()), static_cast<long>(8 * ns));
	hb.write(reinterpret_cast<char*>(hashes.data()), static_cast<long>(8 * hashes.size()));
	return 0;
}

static int show(const Verdict& v) {
	printf("VERDICT violated=%d trivial=%d cls=%s hash=%016llx state=%016llx\n", v.violated, v.trivial, v.cls.empty() ? "-" : esc(v.cls).c_str(), (unsigned long long)v.hash, (unsigned long long)v.state);
	if (v.violated) { printf("DETAIL %s\n", v.detail.c_str()); }
	fflush(stdout);
	return v.violated ? 1 : 0;
}

static int cmd_hashes(int c, char** v) { // hashes <prop> <tier> <seed>...: event-log hashes for the determinism audit
	auto p = find_prop(v[0]);
	bool thorough = std::string(v[1]) == "thorough";
	for (int i = 2; i < c; ++i) {
		uint64_t seed = strtoull(v[i], nullptr, 10);
		Scenario sc = p->gen(seed, thorough);
		sc.prop = p->id;
		sc.seed = seed;
		Verdict vd = p->exec(sc);
		printf("%llu %llu\n", (unsigned long long)seed, (unsigned long long)vd.hash);
	}
	return 0;
}
static int cmd_gen(int c, char** v) { // gen <prop> <seed> <tier>
	if (c < 3) { return 2; }
	auto p = find_prop(v[0]);
	Scenario sc = p->gen(strtoull(v[1], nullptr, 10), std::string(v[2]) == "thorough");
	sc.prop = p->id;
	sc.seed = strtoull(v[1], nullptr, 10);
	fputs(sc.to_text().c_str(), stdout);
	return 0;
}
static int cmd_exec(int c, char** v) { // exec <file>
	Scenario sc;
	if (c < 1 || !Scenario::from_text(slurp(v[0]), sc)) { fprintf(stderr, "simulator: bad scenario file\n"); return 2; }
	return show(find_prop(sc.prop)->exec(sc));
}
static int cmd_min(int c, char** v) { // min <in> <out> <seconds>
	Scenario sc;
	if (c < 3 || !Scenario::from_text(slurp(v[0]), sc)) { return 2; }
	auto p = find_prop(sc.prop);
	double deadline = wall() + atof(v[2]);
	Verdict v0 = p->exec(sc);
	if (!v0.violated) { printf("not violated\n"); return 3; }
	uint64_t tries = 0;
	auto test = [&](const Scenario& s) { ++tries; auto r = p->exec(s); return r.violated && r.cls == v0.cls; };
	bool changed = true;
	while (changed && wall() < deadline) {
		changed = false;
		// drop operations (ddmin)
		for (size_t chunk = std::max<size_t>(1, sc.ops.size() / 2); chunk >= 1 && wall() < deadline; chunk /= 2) {
			for (size_t i = 0; i < sc.ops.size() && wall() < deadline;) {
				Scenario t = sc;
				size_t e = std::min(sc.ops.size(), i + chunk);
				t.ops.erase(t.ops.begin() + static_cast<long>(i), t.ops.begin() + static_cast<long>(e));
				if (test(t)) { sc = t; changed = true; }
				else { i += chunk; }
			}
			if (chunk == 1) { break; }
		}
		// simplify arguments
		for (size_t i = 0; i < sc.ops.size() && wall() < deadline; ++i) {
			for (size_t a = 0; a < sc.ops[i].a.size() && wall() < deadline; ++a) {
				std::string cur = sc.ops[i].a[a];
				std::vector<std::string> cand;
				bool num = !cur.empty() && cur.size() < 15 && std::all_of(cur.begin(), cur.end(), [](char x) { return x >= '0' && x <= '9'; });
				if (num) {
					long long n = atoll(cur.c_str());
					if (n > 0) { cand = {"0", "1", std::to_string(n / 2), std::to_string(n - 1)}; }
				}
				else if (cur.size() > 1) {
					auto ls = split_lines(cur);
					if (ls.size() > 1) {
						for (size_t x = 0; x < ls.size() && cand.size() < 12; ++x) {
							std::string j;
							for (size_t y = 0; y < ls.size(); ++y) { if (y != x) { j += ls[y] + "\n"; } }
							cand.push_back(j);
						}
					}
				}
				for (auto& s : cand) {
					if (s == cur || wall() > deadline) { continue; }
					Scenario t = sc;
					t.ops[i].a[a] = s;
					if (test(t)) { sc = t; changed = true; break; }
				}
			}
		}
		for (auto& [k, val] : std::map<std::string, std::string>(sc.kv)) {
			if (wall() > deadline) { break; }
			Scenario t = sc;
			t.kv.erase(k);
			if (test(t)) { sc = t; changed = true; }
		}
	}
	std::ofstream o(v[1], std::ios::binary);
	o << sc.to_text();
	printf("minimised ops=%zu tries=%llu\n", sc.ops.size(), (unsigned long long)tries);
	return 0;
}
static int cmd_dump(int c, char** v) { // dump <file> <dir>: the files and command line of a stream scenario
	Scenario sc;
	if (c < 2 || !Scenario::from_text(slurp(v[0]), sc)) { return 2; }
	g_dump_dir = v[1];
	auto vd = find_prop(sc.prop)->exec(sc);
	(void)vd;
	return 0;
}
static int cmd_tool(int c, char** v) { // tool <name> args... < input : run a tool inside the simulator, show outcome
	RunSpec s;
	s.tool = v[0];
	for (int i = 1; i < c; ++i) { s.argv.push_back(v[i]); }
	std::stringstream ss;
	ss << std::cin.rdbuf();
	s.in = ss.str();
	auto r = run(s);
	fwrite(r.out.data(), 1, r.out.size(), stdout);
	fprintf(stderr, "--stderr--\n%s\n--%s steps=%llu sim_us=%llu cov=%llx\n", r.err.c_str(), r.verdict().c_str(), (unsigned long long)r.steps, (unsigned long long)r.sim_us, (unsigned long long)r.cov_hash);
	for (auto& n : r.notes) { fprintf(stderr, "note: %s\n", n.c_str()); }
	return 0;
}

int main(int argc, char** argv) {
	if (!getenv("CG3SIM_NOASLR")) {
		// one more source of nondeterminism out of the way; the run does not depend on it succeeding
		setenv("CG3SIM_NOASLR", "1", 1);
		if (personality(0xffffffff) >= 0 && personality(ADDR_NO_RANDOMIZE) >= 0) { execv("/proc/self/exe", argv); }
	}
	if (argc < 2) { fprintf(stderr, "usage: sim batch|gen|exec|min|hashes|tool|list\n"); return 2; }
	signal(SIGTERM, [](int) { cleanup_runtime(); _exit(4); });
	std::string c = argv[1];
	std::vector<std::string> abs;
	// relative paths must survive the chdir into the scratch directory
	for (int i = 2; i < argc; ++i) {
		if (c != "tool" && argv[i][0] != '/' && access(argv[i], F_OK) == 0) {
			char* rp = realpath(argv[i], nullptr);
			if (rp) { argv[i] = rp; }
		}
	}
	if (c == "list") { for (auto& p : properties()) { printf("%s\n", p.id.c_str()); } return 0; }
	char cwd[4096];
	if (c == "min" && argc > 3 && argv[3][0] != '/' && getcwd(cwd, sizeof(cwd))) { argv[3] = strdup((std::string(cwd) + "/" + argv[3]).c_str()); }
	init_runtime();
	int rv = 2;
	if (c == "batch") { rv = cmd_batch(argc - 2, argv + 2); }
	else if (c == "gen") { rv = cmd_gen(argc - 2, argv + 2); }
	else if (c == "exec") { rv = cmd_exec(argc - 2, argv + 2); }
	else if (c == "min") { rv = cmd_min(argc - 2, argv + 2); }
	else if (c == "hashes") { rv = cmd_hashes(argc - 2, argv + 2); }
	else if (c == "dump") { rv = cmd_dump(argc - 2, argv + 2); }
	else if (c == "tool") { rv = cmd_tool(argc - 2, argv + 2); }
	cleanup_runtime();
	fflush(stdout);
	_exit(rv);
}
