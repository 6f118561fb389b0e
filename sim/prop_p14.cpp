// P14: running out of memory never yields a wrong result reported as success.
#include "workload.hpp"
namespace sim {
static Scenario gen(uint64_t seed, bool thorough) {
	Rng g(seed);
	Scenario sc;
	int m = static_cast<int>(g.below(10));
	std::string mode = m < 7 ? "stream" : "grammar";
	sc.set("mode", mode);
	if (mode == "grammar") {
		static const std::vector<std::string> W = {"comp", "comp", "relabel", "bin", "text", "load"};
		sc.set("what", g.pick(W));
		auto& c = g.pick(corpus_cg()).grammar;
		if (c.find("EXTERNAL") == std::string::npos && g.chance(0.2)) { for (auto& l : split_lines(c)) { sc.ops.push_back(Op("g", l)); } }
		else { for (auto& x : g.chance(0.6) ? gen_rich(g, 8) : gen_grammar(g, random_gram_opts(g))) { sc.ops.push_back(x); } }
	}
	else {
		StreamOpts o;
		o.max_coh = thorough && g.chance(0.3) ? 120 : 25;
		o.p_long = 0.06;
		gen_stream(g, sc, o);
		if (sc.gets("tool") == "vislcg3" && sc.gets("corpus").empty() && g.chance(0.4)) {
			std::vector<Op> keep;
			for (auto& x : sc.ops) { if (x.kind != "g") { keep.push_back(x); } }
			sc.ops = gen_rich(g, 9);
			for (auto& x : keep) { sc.ops.push_back(x); }
		}
	}
	int n = static_cast<int>(g.range(4, thorough ? 24 : 12));
	for (int i = 0; i < n; ++i) {
		// which allocation, in millionths of all; mostly a single one
		sc.ops.push_back(Op("oom", g.chance(0.1) ? 999999 - g.range(0, 3000) : g.range(0, 999999), g.chance(0.85) ? 1 : g.chance(0.5) ? g.range(2, 60) : 1000000000));
	}
	if (g.chance(0.3)) { sc.set("guard", 1); }
	return sc;
}

static Verdict exec(const Scenario& sc) {
	Verdict v;
	std::string mode = sc.gets("mode"), what = sc.gets("what"), tag;
	RunSpec s;
	std::string outf;
	if (mode == "grammar") {
		fs_put("g.cg3", grammar_text(sc));
		outf = "x.out";
		if (what == "comp") { s.tool = "cg-comp"; s.argv = {"g.cg3", outf}; }
		else if (what == "relabel" || what == "load") {
			bool ok = false;
			auto b = compile_grammar(grammar_text(sc), ok);
			if (!ok) { v.trivial = true; return v; }
			fs_put("g.bin", b);
			fs_put("g.rel", "DELIMITERS = \"<$.>\" ;\nLIST X = x ;\nSECTION\nMAP (Nn) TARGET (N) ;\nMAP (V verb) TARGET (V) ;\n");
			if (what == "relabel") { s.tool = "cg-relabel"; s.argv = {"g.bin", "g.rel", outf}; }
			else {
				s.tool = "vislcg3"; s.argv = {"-g", "g.bin"}; outf.clear();
				s.in = "\"<a>\"\n\t\"a\" N Sg\n\t\"a\" V Inf\n\"<b>\"\n\t\"b\" N Pl\n\t\"b\" Adj\n\"<$.>\"\n\t\"$.\" PU\n\n";
			}
		}
		else { s.tool = "vislcg3"; s.argv = {"-g", "g.cg3", "--grammar-only", what == "text" ? "--grammar-out" : "--grammar-bin", outf}; }
		tag = what;
	}
	else {
		auto w = build_stream(sc);
		if (!w.ok || w.spec.in.empty()) { v.trivial = true; return v; }
		s = w.spec;
		tag = mode + ":" + s.tool;
	}
	if (!outf.empty()) { fs_del(outf); }
	if (sc.geti("guard")) { s.alloc_policy = 3; }
	auto ref = run(s);
	v.absorb(ref);
	if (!ref.ok()) { v.trivial = true; return v; }
	std::string want = ref.out;
	if (!outf.empty() && !fs_get(outf, want)) { v.trivial = true; return v; }
	s.step_limit = ref.steps * 20 + 20000000;
	int k = 0;
	for (auto& o : sc.ops) {
		if (o.kind != "oom") { continue; }
		++k;
		RunSpec q = s;
		uint64_t total = ref.n_alloc;
		int64_t at = static_cast<int64_t>(total * static_cast<uint64_t>(o.i(0)) / 1000000);
		q.oom_at = at;
		q.oom_count = o.i(1, 1);
		if (!outf.empty()) { fs_del(outf); }
		auto r = run(q);
		v.absorb(r);
		if (!r.oom_fired) { continue; }
		stat("p14.failed_allocations");
		std::string got = r.out;
		bool have = true;
		if (!outf.empty()) { have = fs_get(outf, got); }
		std::string lbl = o.kind + " at allocation " + std::to_string(at) + " of " + std::to_string(total) + (o.i(1, 1) > 1 ? " and the next " + o.s(1) : "");
		bool stopped = r.kind == Kind::Signal && r.code == 6 && r.err.find("terminate called") != std::string::npos;
		if (r.kind == Kind::Hang || r.kind == Kind::Deadlock) { v.fail("hang:" + tag, lbl + ": " + describe(r)); continue; }
		if (r.kind != Kind::Exit && !stopped) { v.fail("crash:" + tag, lbl + ": " + describe(r)); continue; }
		if (r.ok()) {
			stat("p14.recovered");
			if (!have || got != want) { v.fail("silent:" + tag, lbl + ": reported as success, yet the result differs: " + diff_summary(got, want) + " stderr " + esc(r.err.substr(0, 200))); }
		}
		else {
			stat(stopped ? "p14.terminated" : "p14.failed_cleanly");
			if (have && want.compare(0, got.size(), got) != 0) { v.fail("garbage:" + tag, lbl + ": what was output is not a prefix of the fault-free output: " + diff_summary(got, want)); }
		}
	}
	if (!k) { v.trivial = true; }
	return v;
}
static Register r14({"P14", gen, exec});
} // namespace sim
