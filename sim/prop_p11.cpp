// P11: library results do not depend on what was done before in the process.
#include "session.hpp"
#include "workload.hpp"
#include <algorithm>
namespace sim {
static Scenario gen(uint64_t seed, bool thorough) {
	Rng g(seed);
	Scenario sc;
	SessOpts o;
	o.max_ops = thorough ? 60 : g.chance(0.3) ? 45 : 20;
	gen_session(g, sc, o);
	Rng e(g.next());
	sc.set("env", static_cast<int64_t>(e.next() >> 1));
	return sc;
}
static RunOut go(const SessEnv& e, const Scenario& sc, const std::vector<size_t>& calls, uint64_t env) {
	RunSpec s;
	s.body = [&]() {
		lib_init();
		run_calls(e, sc, calls, sess_emit);
		sess_end();
		return 0;
	};
	s.step_limit = std::min<uint64_t>(15, calls.size()) * 60000000ull;
	Rng g(env);
	if (env) { vary_env(g, s); }
	return run(s);
}
static Verdict exec(const Scenario& sc) {
	Verdict v;
	auto e = prepare_session(sc);
	if (!e.ok) { v.trivial = true; return v; }
	std::vector<size_t> all;
	for (size_t i = 0; i < sc.ops.size(); ++i) { if (sc.ops[i].kind == "x") { all.push_back(i); } }
	auto full = go(e, sc, all, static_cast<uint64_t>(sc.geti("env")));
	v.absorb(full);
	auto got = sess_parse(full.out);
	size_t checked = 0;
	if (full.kind == Kind::Hang) { // some grammars loop by themselves
		for (auto i : all) {
			if (sc.ops[i].s(1) != "R" && sc.ops[i].s(1) != "T") { continue; }
			auto alone = go(e, sc, call_slice(sc, i), 0);
			if (!alone.ok()) { v.trivial = true; stat("p11.grammar_loops"); return v; }
		}
		v.fail("hangs", "the session hangs but none of its calls does so in a fresh process: " + describe(full));
		return v;
	}
	// the first call without a transcript where one is due is where a crash happened
	std::map<std::string, std::string> seen;
	for (auto i : all) {
		if (!call_reads(sc.ops[i])) { continue; }
		auto sl = call_slice(sc, i);
		std::string key;
		for (auto k : sl) { for (auto& a : sc.ops[k].a) { key += a + "\x1f"; } key += "\x1e"; }
		auto alone = go(e, sc, sl, 0);
		v.absorb(alone);
		auto one = sess_parse(alone.out);
		bool has = got.count(i), had = one.count(i);
		std::string verb = sc.ops[i].s(1);
		if (!alone.ok()) { // fails by itself: not a matter of history
			stat("p11.alone." + alone.verdict());
			if (verb == "B" || verb == "G") { v.fail("call-kills:" + verb + ":" + (verb == "B" ? sc.ops[i].s(2) : ""), "the call alone ends the process: " + describe(alone)); return v; }
			if (crashed(alone) && alone.kind != Kind::Hang) { v.fail("crash-alone:" + verb, describe(alone)); return v; }
			v.trivial = true;
			return v;
		}
		if (!had || one[i] == "\x1d" || (has && got[i] == "\x1d")) { continue; } // not possible: its objects are gone
		if (!has) { v.fail("dies:" + verb, "call " + std::to_string(i) + " works in a fresh process but the session ended: " + describe(full)); return v; }
		if (one[i].rfind("exception", 0) == 0 && (verb == "B" || verb == "G")) { v.fail("throws:" + verb, "a C API call lets a C++ exception escape: " + one[i]); return v; }
		if (got[i] != one[i]) {
			v.fail("differs:" + verb + (verb == "B" ? ":" + sc.ops[i].s(2) : ""), "call " + std::to_string(i) + " (" + verb + ") gives another result than in a fresh process: " + diff_summary(one[i], got[i]));
			return v;
		}
		++checked;
		Scenario direct;
		std::vector<size_t> dcalls;
		if (uncopied(sc, i, direct, dcalls)) {
			auto d = go(e, direct, dcalls, 0);
			v.absorb(d);
			auto dm = sess_parse(d.out);
			if (d.ok() && dm.count(i) && dm[i] != "\x1d") {
				stat("p11.copies");
				if (dm[i] != one[i]) { v.fail("copy-differs", "call " + std::to_string(i) + " reads something else from a copy than from the same sentence built directly: " + diff_summary(dm[i], one[i])); return v; }
			}
		}
	}
	if (!full.ok()) { v.fail("session:" + full.verdict(), describe(full)); return v; }
	stat("p11.results", checked);
	stat("p11.calls", all.size());
	if (checked < 2) { v.trivial = true; }
	return v;
}
static Register r11({"P11", gen, exec});
} // namespace sim
