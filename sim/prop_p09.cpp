// P09: the result is a function of grammar, options and input alone.
#include "workload.hpp"
namespace sim {
// an environment; the second argument, if any, selects what may differ (for diagnosis)
static void apply_env(const Op& o, RunSpec& s) {
	RunSpec t = s;
	Rng g(static_cast<uint64_t>(o.i(0)));
	vary_env(g, t);
	int64_t m = o.a.size() > 1 ? o.i(1) : 127;
	if (m & 1) { s.alloc_seed = t.alloc_seed; }
	if (m & 2) { s.rand_seed = t.rand_seed; }
	if (m & 4) { s.alloc_policy = t.alloc_policy; }
	if (m & 8) { s.alloc_fill = t.alloc_fill; }
	if (m & 16) { s.stack_fill = t.stack_fill; }
	if (m & 32) { s.epoch = t.epoch; }
}
static Scenario gen(uint64_t seed, bool thorough) {
	Rng g(seed);
	Scenario sc;
	if (g.chance(0.08)) {
		// grammar compilation, too
		sc.set("comp", 1);
		GramOpts go = random_gram_opts(g);
		go.max_rules = 25;
		for (auto& x : gen_grammar(g, go)) { sc.ops.push_back(x); }
		if (g.chance(0.3)) { auto& it = g.pick(corpus_cg()); sc.ops.clear(); for (auto& l : split_lines(it.grammar)) { sc.ops.push_back(Op("g", l)); } }
	}
	else {
		StreamOpts o;
		o.focus = 0.2;
		o.max_coh = thorough ? 60 : 18;
		o.p_weird = g.chance(0.5) ? 0.3 : 0.06;
		o.p_long = g.chance(0.3) ? 0.15 : 0.01;
		gen_stream(g, sc, o);
		if (sc.gets("tool") == "vislcg3" && g.chance(0.2)) { sc.ops.push_back(Op("arg", g.chance(0.5) ? "--print-ids" : "-v", "0")); if (sc.ops.back().s(0) == "--print-ids") { sc.ops.back().a.pop_back(); } }
	}
	int n = static_cast<int>(g.range(1, 3));
	for (int i = 0; i < n; ++i) { sc.ops.push_back(Op("env", static_cast<int64_t>(g.next() >> 2))); }
	return sc;
}
static Verdict exec(const Scenario& sc) {
	Verdict v;
	if (sc.geti("comp")) {
		fs_put("c.cg3", grammar_text(sc));
		RunSpec s;
		s.tool = "cg-comp";
		s.argv = {"c.cg3", "c.bin"};
		auto one = [&](const RunSpec& q, std::string& b) { fs_del("c.bin"); auto r = run(q); b.clear(); fs_get("c.bin", b); v.absorb(r); v.hash = mix(v.hash, hash_str(b)); return r; };
		std::string b0, b1;
		auto ref = one(s, b0);
		if (ref.kind == Kind::Hang || !ref.ok()) { v.trivial = true; }
		for (auto& o : sc.ops) {
			if (o.kind != "env") { continue; }
			RunSpec q = s;
			apply_env(o, q);
			auto r = one(q, b1);
			if (r.verdict() != ref.verdict()) { v.fail("comp-outcome", "environment " + o.s(0) + ": " + describe(r) + " but otherwise " + describe(ref)); }
			else if (b1 != b0) { v.fail("comp-output", "environment " + o.s(0) + " changes the compiled grammar: " + diff_summary(b1, b0)); }
		}
		return v;
	}
	auto w = build_stream(sc);
	if (!w.ok || w.spec.in.size() < 2) { v.trivial = true; return v; }
	auto ref = run(w.spec);
	v.absorb(ref);
	if (ref.kind == Kind::Hang) { v.trivial = true; stat("p09.grammar_loops"); return v; }
	if (ref.out.size() < 8) { v.trivial = true; }
	std::string tag = w.spec.tool + ":" + sc.gets("ifmt") + ">" + sc.gets("ofmt");
	for (auto& o : sc.ops) {
		if (o.kind != "env") { continue; }
		RunSpec s = w.spec;
		apply_env(o, s);
		auto r = run(s);
		v.absorb(r);
		if (r.verdict() != ref.verdict()) { v.fail("outcome:" + tag, "environment " + o.s(0) + ": " + describe(r) + " but otherwise " + describe(ref)); }
		else if (r.out != ref.out) { v.fail("output:" + tag, "environment " + o.s(0) + " (A) changes the output (B): " + diff_summary(r.out, ref.out)); }
		else if (strip_noise(r.err) != strip_noise(ref.err)) { v.fail("diagnostics:" + w.spec.tool, "environment " + o.s(0) + " (A) changes the diagnostics (B): " + diff_summary(r.err, ref.err)); }
	}
	if (crashed(ref)) { v.trivial = true; stat("p09.ref_crashed"); }
	return v;
}
static Register r9({"P09", gen, exec});
} // namespace sim
