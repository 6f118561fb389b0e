// P07: a compiled grammar means what its source means, and loads whole or not at all.
#include "workload.hpp"
#include <algorithm>
namespace sim {
static Scenario gen(uint64_t seed, bool thorough) {
	Rng g(seed);
	Scenario sc;
	sc.set("tool", "vislcg3");
	bool corpus = g.chance(0.2);
	if (corpus) {
		auto& it = g.pick(corpus_cg());
		if (it.grammar.find("EXTERNAL") == std::string::npos && join(it.args).find("compat") == std::string::npos) {
			for (auto& l : split_lines(it.grammar)) { sc.ops.push_back(Op("g", l)); }
			for (auto& a : it.args) { sc.ops.push_back(Op("arg", a)); }
			for (auto& l : split_lines(it.input)) { sc.ops.push_back(Op("raw", l + "\n")); }
		}
	}
	else {
		auto gr = g.chance(0.75) ? gen_rich(g, thorough ? 20 : 9) : gen_grammar(g, random_gram_opts(g));
		if (g.chance(0.15)) { // the rules come from an included file
			size_t at = 0;
			for (size_t i = 0; i < gr.size(); ++i) { if (gr[i].s(0) == "SECTION") { at = i; break; } }
			for (size_t i = at; i < gr.size(); ++i) { gr[i].kind = "gi"; }
			gr.insert(gr.begin() + static_cast<long>(at), Op("g", "INCLUDE inc.cg3 ;"));
		}
		if (g.chance(0.06)) { // names and tags as long as the buffers
			std::string l(static_cast<size_t>(g.range(100, 9000)), 'x');
			if (g.chance(0.3)) { l.clear(); for (int64_t i = g.range(50, 4500); i > 0; --i) { l += "é"; } }
			switch (g.below(4)) {
			case 0: gr.push_back(Op(gr.back().kind, "ADD (@" + l + ") N ;")); break;
			case 1: gr.push_back(Op(gr.back().kind, "ADD:" + l + " (@l) N ;")); break;
			case 2: gr.push_back(Op(gr.back().kind, "ADD (VSTR:a{N}$1" + l + ") (\"(.)" + l + "?.*\"r) ;")); break;
			case 3: gr.push_back(Op(gr.back().kind, "ADD (@l) (N \"<" + l + ">\") ;")); break;
			}
		}
		for (auto& x : gr) { sc.ops.push_back(x); }
		DocOpts d;
		d.max_coh = thorough ? 60 : 30;
		d.min_coh = 10;
		d.deps = g.chance(0.3);
		d.rels = g.chance(0.2);
		d.p_sub = 0.15;
		d.vars = g.chance(0.4);
		d.p_cmd = d.vars ? 0.08 : 0;
		if (g.chance(0.3)) { sc.ops.push_back(Op("arg", "-t")); }
		for (auto& x : gen_doc(g, d)) { sc.ops.push_back(x); }
	}
	static const std::vector<std::string> LOAD = {"vislcg3", "vislcg3", "cg-proc", "cg-relabel", "recompile"};
	int n = static_cast<int>(g.range(2, thorough ? 12 : 6));
	for (int i = 0; i < n; ++i) {
		int64_t p = g.chance(0.15) ? 999999 : g.chance(0.15) ? g.range(0, 60) * -1 : g.range(0, 999999);
		std::string l = g.pick(LOAD);
		switch (g.below(8)) {
		case 0: case 1: case 2: sc.ops.push_back(Op("cut", l, p)); break;
		case 3: sc.ops.push_back(Op("rd", l, p)); break;
		case 4: sc.ops.push_back(Op("short", l, g.chance(0.5) ? g.range(0, 10) : g.range(1, 2000))); break;
		case 5: sc.ops.push_back(Op("eintr", l)); break;
		case 6: sc.ops.push_back(Op("crash", l, p)); break;
		case 7: sc.ops.push_back(Op("rdtext", g.chance(0.5) ? "cg-comp" : "vislcg3", p)); break;
		}
	}
	if (g.chance(0.4)) { sc.set("guard", 1); }
	return sc;
}
static void clean_outs() { for (auto f : {"g.bin", "g2.bin", "out.bin"}) { fs_del(f); } }

static Verdict exec(const Scenario& sc) {
	Verdict v;
	clean_outs();
	fs_del("inc.cg3");
	std::string text = grammar_text(sc), inc;
	for (auto& o : sc.ops) { if (o.kind == "gi") { inc += o.s(0) + "\n"; } }
	if (!inc.empty()) { fs_put("inc.cg3", inc); }
	fs_put("g.cg3", text);
	fs_put("g.rel", "MAP (N) (Nn) ;\n");
	std::vector<std::string> args;
	for (auto& o : sc.ops) { if (o.kind == "arg") { for (auto& a : o.a) { args.push_back(a); } } }
	bool ok = true;
	RunSpec s;
	s.tool = "vislcg3";
	if (sc.geti("guard")) { s.alloc_policy = 3; }
	s.in = stream_bytes(sc, sc.ops, ok);
	s.argv = {"-g", "g.cg3"};
	for (auto& a : args) { s.argv.push_back(a); }
	auto ref = run(s);
	v.absorb(ref);
	if (!ref.ok()) { v.trivial = true; stat("p07.source_rejected"); if (getenv("CG3SIM_SHOW")) { fprintf(stderr, "REJ %llu %s %s\n", (unsigned long long)sc.seed, ref.verdict().c_str(), esc(ref.err.substr(0, 3000)).c_str()); } return v; }
	RunSpec c;
	c.tool = "cg-comp";
	c.argv = {"g.cg3", "g.bin"};
	auto cr = run(c);
	v.absorb(cr);
	std::string bin, bin2;
	if (!cr.ok() || !fs_get("g.bin", bin) || bin.empty()) { v.fail("not-compiled", "the grammar runs from source, but cg-comp: " + describe(cr)); return v; }
	s.argv[1] = "g.bin";
	auto b = run(s);
	v.absorb(b);
	auto hush = [](const std::string& e) { std::string r; for (auto& l : split_lines(strip_noise(e))) { if (l.find("Warning") == std::string::npos && l.find("g.cg3") == std::string::npos && l.find("inc.cg3") == std::string::npos) { r += l + "\n"; } } return r; };
	if (b.verdict() != ref.verdict()) { v.fail("verdict", "compiled: " + describe(b)); return v; }
	if (b.out != ref.out) { v.fail("meaning", "compiled grammar gives other output than its source: " + diff_summary(ref.out, b.out)); return v; }
	(void)hush;
	// compiled again from the compiled form
	RunSpec c2;
	c2.tool = "vislcg3";
	c2.argv = {"-g", "g.bin", "--grammar-only", "--grammar-bin", "g2.bin"};
	auto r2 = run(c2);
	v.absorb(r2);
	if (!r2.ok() || !fs_get("g2.bin", bin2)) { v.fail("not-recompiled", describe(r2)); return v; }
	s.argv[1] = "g2.bin";
	auto b2 = run(s);
	v.absorb(b2);
	if (b2.verdict() != ref.verdict() || b2.out != ref.out) { v.fail("recompiled", "a grammar compiled from its compiled form gives other output: " + diff_summary(ref.out, b2.out) + " " + b2.verdict()); return v; }
	c2.argv = {"-g", "g.cg3", "--grammar-only", "--grammar-bin", "g2.bin"};
	auto r3 = run(c2);
	v.absorb(r3);
	s.argv[1] = "g2.bin";
	auto b3 = run(s);
	v.absorb(b3);
	if (!r3.ok() || b3.verdict() != ref.verdict() || b3.out != ref.out) { v.fail("option", "a grammar compiled with --grammar-bin gives other output: " + diff_summary(ref.out, b3.out) + " " + b3.verdict()); return v; }
	stat("p07.equivalences", 3);
	// what each loader does with the undamaged file
	auto loader = [&](const std::string& t) {
		RunSpec q;
		if (t == "cg-proc") { q.tool = "cg-proc"; q.argv = {"-d", "-f", "0", "g.bin"}; q.in = s.in; }
		else if (t == "cg-relabel") { q.tool = "cg-relabel"; q.argv = {"g.bin", "g.rel", "out.bin"}; }
		else if (t == "recompile") { q.tool = "vislcg3"; q.argv = {"-g", "g.bin", "--grammar-only", "--grammar-bin", "out.bin"}; }
		else { q = s; q.argv[1] = "g.bin"; }
		return q;
	};
	for (auto& o : sc.ops) {
		if (o.kind != "cut" && o.kind != "rd" && o.kind != "short" && o.kind != "eintr" && o.kind != "crash" && o.kind != "rdtext") { continue; }
		std::string dmg = bin, tool = o.s(0), what, ofile;
		int64_t sz = static_cast<int64_t>(o.kind == "rdtext" ? (inc.empty() ? text : inc).size() : bin.size());
		int64_t p = o.i(1), at = p == 999999 ? sz - 1 : p < 0 ? std::min<int64_t>(sz - 1, -p) : sz * p / 1000000;
		RunSpec q = loader(tool);
		if (sc.geti("guard")) { q.alloc_policy = 3; }
		bool must_fail = true;
		fs_put("g.bin", bin);
		fs_del("out.bin");
		if (o.kind == "rdtext") {
			q = RunSpec();
			q.tool = tool;
			if (tool == "cg-comp") { q.argv = {"g.cg3", "out.bin"}; }
			else { q = s; q.argv[1] = "g.cg3"; }
			q.fs.push_back(FsFault{inc.empty() ? "g.cg3" : "inc.cg3", "read", at, "eio"});
			what = "read error at byte " + std::to_string(at) + " of the source";
		}
		else if (o.kind == "cut") { dmg.resize(static_cast<size_t>(at)); fs_put("g.bin", dmg); what = "cut to " + std::to_string(at) + " of " + std::to_string(sz) + " bytes"; stat("fault.grammar_cut"); }
		else if (o.kind == "rd") { q.fs.push_back(FsFault{"g.bin", "read", at, "eio"}); what = "read error at byte " + std::to_string(at) + " of " + std::to_string(sz); }
		else if (o.kind == "short") { q.fs.push_back(FsFault{"g.bin", "read", o.i(1), "short"}); must_fail = false; what = "short reads"; }
		else if (o.kind == "eintr") { q.fs.push_back(FsFault{"g.bin", "read", 0, "eintr"}); must_fail = false; what = "interrupted reads"; }
		else {
			// the compiler dies in the middle of writing
			RunSpec k = c;
			k.fs.push_back(FsFault{"g.bin", "write", at, "kill"});
			fs_del("g.bin");
			auto kr = run(k);
			v.absorb(kr);
			std::string left;
			bool have = fs_get("g.bin", left);
			must_fail = left != bin;
			if (have && bin.compare(0, left.size(), left) != 0) { v.fail("torn", "what a dying compiler leaves is no prefix of the grammar"); }
			what = "compiler died at byte " + std::to_string(at) + " of " + std::to_string(sz) + " leaving " + std::to_string(left.size());
		}
		auto r = run(q);
		v.absorb(r);
		std::string lbl = tool + ": " + what;
		if (must_fail) {
			stat("p07.damaged_loads");
			std::string ob;
			if (crashed(r)) { v.fail("crash:" + o.kind + ":" + tool, lbl + ": " + describe(r)); }
			else if (r.code == 0) { v.fail("accepted:" + o.kind + ":" + tool, lbl + ": accepted; " + describe(r)); }
			else if (!r.out.empty()) { v.fail("used:" + o.kind + ":" + tool, lbl + ": output was produced with it; " + describe(r)); }
			else if (r.err.empty()) { v.fail("undiagnosed:" + o.kind + ":" + tool, lbl + ": no diagnostics"); }
			else if ((tool == "cg-comp" || tool == "recompile" || tool == "cg-relabel") && fs_get("out.bin", ob) && !ob.empty()) { v.fail("written:" + o.kind + ":" + tool, lbl + ": a grammar was written from it (" + std::to_string(ob.size()) + " bytes)"); }
		}
		else {
			fs_put("g.bin", bin);
			std::string ob, ob2;
			fs_get("out.bin", ob);
			RunSpec q0 = q;
			q0.fs.clear();
			fs_del("out.bin");
			auto r0 = run(q0);
			v.absorb(r0);
			fs_get("out.bin", ob2);
			stat("p07.harmless_faults");
			if (r.verdict() != r0.verdict() || r.out != r0.out || ob != ob2) { v.fail("harmless:" + o.kind + ":" + tool, lbl + " change the result: " + describe(r)); }
		}
	}
	return v;
}
static Register r7({"P07", gen, exec});
} // namespace sim
