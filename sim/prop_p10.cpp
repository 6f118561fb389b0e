// P10: independent sessions in concurrent threads do not disturb each other.
#include "session.hpp"
#include "workload.hpp"
#include <algorithm>
namespace sim {
static Scenario gen(uint64_t seed, bool thorough) {
	Rng g(seed);
	Scenario sc;
	SessOpts o;
	o.threads = static_cast<int>(g.chance(0.6) ? 2 : g.range(3, thorough ? 6 : 4));
	o.min_ops = 1;
	o.max_ops = thorough ? 14 : 7;
	o.streams = g.chance(0.35);
	o.twins = g.chance(0.35);
	gen_session(g, sc, o);
	static const std::vector<int> mean = {3, 10, 40, 150, 600, 3000, 20000};
	sc.set("sched", static_cast<int64_t>(g.next() >> 1));
	sc.set("mean", g.pick(mean));
	sc.set("switches", g.chance(0.15) ? g.range(1, 4) : g.range(50, thorough ? 20000 : 4000));
	sc.set("directed", g.chance(0.6) ? 1 : 0);
	sc.set("env", static_cast<int64_t>(g.next() >> 1));
	return sc;
}
static Verdict exec(const Scenario& sc) {
	Verdict v;
	auto e = prepare_session(sc);
	if (!e.ok) { v.trivial = true; return v; }
	std::map<std::string, std::vector<size_t>> th;
	for (size_t i = 0; i < sc.ops.size(); ++i) { if (sc.ops[i].kind == "x") { th[sc.ops[i].s(0)].push_back(i); } }
	if (th.size() < 2) { v.trivial = true; return v; }
	std::map<size_t, std::string> want;
	uint64_t steps = 0;
	for (auto& [t, calls] : th) {
		RunSpec s;
		s.body = [&]() { lib_init(); run_calls(e, sc, calls, sess_emit); sess_end(); return 0; };
		s.step_limit = std::min<uint64_t>(15, calls.size()) * 60000000ull;
		auto r = run(s);
		v.absorb(r);
		if (r.kind == Kind::Signal && getenv("CG3SIM_ALONE")) { v.fail("alone:" + r.verdict(), "thread " + t + " alone: " + describe(r)); return v; }
		if (!r.ok()) { stat("p10.alone." + r.verdict()); v.trivial = true; return v; }
		steps += r.steps;
		for (auto& [k, x] : sess_parse(r.out)) { want[k] = x; }
	}
	RunSpec s;
	s.body = [&]() {
		lib_init();
		in::threads_begin(static_cast<uint64_t>(sc.geti("sched")), static_cast<uint32_t>(sc.geti("mean")), static_cast<uint32_t>(sc.geti("switches")), sc.geti("directed") != 0);
		for (auto& [t, calls] : th) {
			auto c = &calls;
			in::thread_spawn([&, c]() { run_calls(e, sc, *c, sess_emit); });
		}
		in::threads_run();
		in::count("switches", in::switches());
		sess_end();
		return 0;
	};
	s.step_limit = steps * 3 + 100000000ull;
	Rng g(static_cast<uint64_t>(sc.geti("env")));
	vary_env(g, s);
	auto r = run(s);
	v.absorb(r);
	auto got = sess_parse(r.out);
	size_t checked = 0;
	for (auto& [t, calls] : th) {
		for (auto i : calls) {
			if (!want.count(i)) { continue; }
			auto& verb = sc.ops[i].s(1);
			if (!got.count(i)) {
				v.fail(r.ok() ? "missing" : (r.kind == Kind::Deadlock ? std::string("deadlock") : r.kind == Kind::Hang ? "hangs" : "dies") + ":" + verb, "thread " + t + " did not get past call " + std::to_string(i) + " (" + verb + "), which works alone: " + describe(r));
				return v;
			}
			if (got[i] != want[i]) {
				v.fail("differs:" + verb, "call " + std::to_string(i) + " (" + verb + ") of thread " + t + " gives another result than without the other threads: " + diff_summary(want[i], got[i]));
				return v;
			}
			++checked;
		}
	}
	if (!r.ok()) { v.fail("session:" + r.verdict(), describe(r)); return v; }
	uint64_t sw = r.counters.count("switches") ? r.counters.at("switches") : 0;
	stat("p10.switches", sw);
	stat("p10.results", checked);
	stat("p10.threads", th.size());
	if (sw < 2 || checked < 2) { v.trivial = true; }
	return v;
}
static Register r10({"P10", gen, exec});
} // namespace sim
