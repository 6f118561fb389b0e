// P06: output that could not be written is never reported as success.
#include "workload.hpp"
namespace sim {
static const std::vector<std::string> OUTK = {"enospc", "enospc", "epipe", "eio_once"};
static const std::vector<std::string> FK = {"enospc", "enospc", "eio", "short", "eintr"};
static const std::vector<std::string> BADPATH = {"nosuchdir/out", ".", ""};

static Scenario gen(uint64_t seed, bool thorough) {
	Rng g(seed);
	Scenario sc;
	int m = static_cast<int>(g.below(10));
	std::string mode = m < 5 ? "stream" : m < 7 ? "outfile" : "grammar";
	sc.set("mode", mode);
	if (mode == "grammar") {
		static const std::vector<std::string> W = {"comp", "comp", "relabel", "bin", "bin", "text", "tags", "both"};
		sc.set("what", g.pick(W));
		GramOpts go = random_gram_opts(g);
		if (g.chance(0.2)) { go.max_rules = 60; go.min_rules = 30; } // more than one buffer of output
		if (g.chance(0.2)) { for (auto& l : split_lines(g.pick(corpus_cg()).grammar)) { sc.ops.push_back(Op("g", l)); } }
		else { for (auto& x : gen_grammar(g, go)) { sc.ops.push_back(x); } }
	}
	else {
		StreamOpts o;
		o.max_coh = thorough && g.chance(0.3) ? 300 : 40;
		if (mode == "outfile") { o.conv = o.mwe = false; }
		gen_stream(g, sc, o);
	}
	int n = static_cast<int>(g.range(2, thorough ? 6 : 4));
	for (int i = 0; i < n; ++i) {
		// position in millionths of the reference output; also the very last bytes
		int64_t p = g.chance(0.25) ? 999999 : g.chance(0.15) ? 0 : g.range(0, 999999);
		if (mode == "stream" || sc.gets("what") == "tags") { sc.ops.push_back(Op("fail", g.pick(OUTK), p, g.chance(0.6) ? 4096 : g.range(1, 400))); }
		else if (g.chance(0.12)) { sc.ops.push_back(Op("badpath", g.pick(BADPATH))); }
		else if (g.chance(0.1)) { sc.ops.push_back(Op("kill", p)); }
		else { sc.ops.push_back(Op("ffail", g.pick(FK), p)); }
	}
	return sc;
}

static Verdict exec(const Scenario& sc) {
	Verdict v;
	std::string mode = sc.gets("mode"), what = sc.gets("what"), tag;
	RunSpec s;
	std::string out = "x.out"; // the file written
	bool to_stdout = mode == "stream" || what == "tags";
	int slot = -1;             // its place among the arguments
	if (mode == "grammar") {
		fs_put("g.cg3", grammar_text(sc));
		if (what == "comp") { s.tool = "cg-comp"; s.argv = {"g.cg3", out}; slot = 1; }
		else if (what == "relabel") {
			bool ok = false;
			auto b = compile_grammar(grammar_text(sc), ok);
			if (!ok) { v.trivial = true; return v; }
			fs_put("g.bin", b);
			fs_put("g.rel", "DELIMITERS = \"<$.>\" ;\nLIST X = x ;\nSECTION\nMAP (Nn) TARGET (N) ;\nMAP (V verb) TARGET (V) ;\n");
			s.tool = "cg-relabel"; s.argv = {"g.bin", "g.rel", out}; slot = 2;
		}
		else if (what == "tags") { s.tool = "vislcg3"; s.argv = {"-g", "g.cg3", "--show-tags"}; }
		else { s.tool = "vislcg3"; s.argv = {"-g", "g.cg3", "--grammar-only", what == "text" ? "--grammar-out" : "--grammar-bin", out}; slot = 4; }
		if (what == "both") { s.argv.push_back("--grammar-out"); s.argv.push_back("y.out"); }
		tag = what;
	}
	else {
		auto w = build_stream(sc);
		if (!w.ok || w.spec.in.empty()) { v.trivial = true; return v; }
		s = w.spec;
		if (mode == "outfile") {
			if (s.tool == "vislcg3") { s.argv.push_back("-O"); s.argv.push_back(out); }
			else { fs_put("x.in", s.in); s.argv.push_back("x.in"); s.argv.push_back(out); }
			slot = static_cast<int>(s.argv.size()) - 1;
		}
		tag = mode + ":" + s.tool;
	}
	fs_del(out);
	fs_del("y.out");
	auto ref = run(s);
	v.absorb(ref);
	if (crashed(ref)) { v.trivial = true; return v; }
	std::string want;
	if (to_stdout) { want = ref.out; }
	else if (!fs_get(out, want)) { v.trivial = true; return v; }
	if (!ref.ok() || want.empty()) { v.trivial = true; return v; }
	int k = 0;
	for (auto& o : sc.ops) {
		if (o.kind != "fail" && o.kind != "ffail" && o.kind != "badpath" && o.kind != "kill") { continue; }
		++k;
		RunSpec q = s;
		int64_t at = 0;
		if (o.kind == "badpath") { q.argv[static_cast<size_t>(slot)] = o.s(0); stat("fault.unopenable_path"); }
		else {
			int64_t p = o.kind == "kill" ? o.i(0) : o.i(1);
			at = p >= 999999 ? static_cast<int64_t>(want.size()) - 1 : static_cast<int64_t>(want.size()) * p / 1000000;
		}
		if (o.kind == "fail") { q.out_fail_at = at; q.out_fail_kind = o.s(0); q.outbuf = static_cast<uint32_t>(o.i(2, 4096)); }
		if (o.kind == "ffail") { q.fs.push_back(FsFault{out, "write", o.s(0) == "short" ? at % 700 : at, o.s(0)}); }
		if (o.kind == "kill") { q.fs.push_back(FsFault{out, "write", at, "kill"}); }
		fs_del(out);
		fs_del("y.out");
		auto r = run(q);
		v.absorb(r);
		std::string got;
		bool have = true;
		if (to_stdout) { got = r.out; }
		else { have = fs_get(out, got); }
		std::string lbl = "fault " + std::to_string(k) + " (" + o.kind + " " + o.s(0) + " at byte " + std::to_string(at) + " of " + std::to_string(want.size()) + ")";
		if (o.kind == "kill") { if (r.kind == Kind::Stop && want.compare(0, got.size(), got) != 0) { v.fail("garbage:" + tag, lbl + ": what reached the device is not a prefix of the output"); } continue; }
		if (crashed(r) || r.kind != Kind::Exit) { v.fail("crash:" + tag, lbl + ": " + describe(r)); continue; }
		if (o.kind == "badpath") {
			if (r.code == 0) { v.fail("silent:" + tag, lbl + ": the output could not be opened, yet the tool reports success; stderr " + esc(r.err.substr(0, 200))); }
			else if (r.err.empty()) { v.fail("undiagnosed:" + tag, lbl + ": no diagnostics"); }
			continue;
		}
		if (r.out_failed) {
			stat("p06.write_failures");
			if (r.code == 0) { v.fail("silent:" + tag, lbl + ": " + std::to_string(got.size()) + " of " + std::to_string(want.size()) + " bytes reached the device, yet the tool reports success"); }
			else if (r.err.empty()) { v.fail("undiagnosed:" + tag, lbl + ": no diagnostics"); }
			if (have && want.compare(0, got.size(), got) != 0) { v.fail("garbage:" + tag, lbl + ": what reached the device is not a prefix of the output: " + diff_summary(got, want)); }
		}
		else {
			stat("p06.harmless_faults");
			if (r.code != 0) { v.fail("alarm:" + tag, lbl + ": nothing failed, yet " + describe(r)); }
			if (!have || got != want) { v.fail("changed:" + tag, lbl + ": complete, yet different: " + diff_summary(got, want)); }
		}
	}
	if (!k) { v.trivial = true; }
	return v;
}
static Register r6({"P06", gen, exec});
} // namespace sim
