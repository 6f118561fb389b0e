#include "workload.hpp"
#include <algorithm>

namespace sim {

static void add_raw(Scenario& sc, const std::string& s) {
	// one operation per line so that the minimiser can drop lines
	size_t p = 0;
	while (p < s.size()) {
		size_t e = s.find('\n', p);
		e = e == std::string::npos ? s.size() : e + 1;
		sc.ops.push_back(Op("raw", s.substr(p, e - p)));
		p = e;
	}
}

static void add_mwe(Rng& g, std::vector<Op>& v) {
	// a multi-word reading whose parts carry word-form tags
	static const std::vector<std::string> W = {"all", "of", "the", "sudden", "New", "York", "été"};
	size_t n = 2 + g.below(3);
	std::vector<std::string> parts;
	for (size_t i = 0; i < n; ++i) { parts.push_back(g.pick(W) + std::to_string(g.below(100))); }
	Coh c;
	c.wf = join(parts, " ");
	Rd top;
	Rd* cur = nullptr;
	for (size_t i = n; i-- > 0;) {
		Rd r;
		r.base = parts[i];
		r.tags = {"N", "\"<" + std::string(i && g.chance(0.3) ? " " : "") + parts[i] + (g.chance(0.2) ? " " : "") + ">\""};
		if (!cur) { top = r; cur = &top; }
		else { cur->subs.push_back(r); cur = &cur->subs.back(); }
	}
	c.rs.push_back(top);
	if (g.chance(0.2)) { Rd r{c.wf, {"Prop"}, {}}; c.rs.push_back(r); }
	v.push_back(coh_op(c));
}

void gen_stream(Rng& g, Scenario& sc, const StreamOpts& o) {
	std::vector<std::string> tools;
	auto add = [&](const char* t, int w) { for (int i = 0; i < w; ++i) { tools.push_back(t); } };
	if (o.vislcg3) { add("vislcg3", 5); }
	if (o.conv) { add("cg-conv", 4); }
	if (o.proc) { add("cg-proc", 3); }
	if (o.mwe) { add("cg-mwesplit", 1); }
	std::string tool = g.pick(tools);
	sc.set("tool", tool);
	if (o.corpus && (tool == "vislcg3" || tool == "cg-proc") && g.chance(0.25)) {
		auto& items = tool == "cg-proc" && g.chance(0.8) ? corpus_ap() : corpus_cg();
		auto& it = g.pick(items);
		if (it.grammar.find("EXTERNAL") == std::string::npos && it.grammar.find("nclude") == std::string::npos && it.grammar.find("NCLUDE") == std::string::npos) {
			sc.set("corpus", it.name);
			for (auto& l : split_lines(it.grammar)) { sc.ops.push_back(Op("g", l)); }
			for (auto& a : it.args) { sc.ops.push_back(Op("arg", a)); }
			bool ap = &items == &corpus_ap();
			if (tool == "cg-proc" && !ap) { sc.ops.clear(); sc.ops.reserve(64); for (auto& l : split_lines(it.grammar)) { sc.ops.push_back(Op("g", l)); } sc.set("pf", 0); }
			std::string in = it.input;
			int rep = static_cast<int>(g.range(1, 3));
			for (int i = 0; i < rep; ++i) { add_raw(sc, in); if (o.flush && g.chance(0.3)) { sc.ops.push_back(Op("raw", ap ? std::string(1, '\0') : std::string("<STREAMCMD:FLUSH>\n"))); } }
			return;
		}
	}
	DocOpts d;
	d.max_coh = o.max_coh;
	d.p_long = o.p_long;
	d.p_weird = o.p_weird;
	d.p_text = g.chance(0.5) ? 0.12 : 0.02;
	d.flush = o.flush && g.chance(0.6);
	d.vars = o.vars && g.chance(0.4);
	d.ignore = o.ignore && g.chance(0.25);
	d.exit = o.exit && g.chance(0.15);
	d.p_cmd = d.flush || d.vars || d.ignore || d.exit ? o.p_cmd : 0;
	if (tool == "vislcg3" || tool == "cg-proc") {
		GramOpts go = random_gram_opts(g);
		d.deps = go.deps;
		d.rels = go.rels;
		if (o.identity) {
			go.min_rules = go.max_rules = 0;
			sc.ops.push_back(Op("g", "DELIMITERS = \"<$.>\" \"<$!>\" \"<$?>\" \"<.>\" ;"));
			if (g.chance(0.5)) { sc.ops.push_back(Op("g", "SOFT-DELIMITERS = \"<$,>\" \"<,>\" ;")); }
			sc.ops.push_back(Op("g", "SECTION"));
			sc.ops.push_back(Op("g", "REMOVE (nosuchtag) ;"));
		}
		else if (o.focus > 0 && tool == "vislcg3" && g.chance(o.focus)) {
			d.rels = d.far_rels = g.chance(0.8);
			d.deps = g.chance(0.4);
			d.p_delim = 0.35;
			for (auto& x : gen_focus(g)) { sc.ops.push_back(x); }
		}
		else if (o.rich && tool == "vislcg3" && g.chance(0.25)) { for (auto& x : gen_rich(g, 9)) { sc.ops.push_back(x); } }
		else { for (auto& x : gen_grammar(g, go)) { sc.ops.push_back(x); } }
	}
	if (tool == "vislcg3") {
		auto cli = gen_cli(g);
		for (size_t i = 0; i < cli.size(); ++i) {
			Op a("arg", cli[i]);
			if (i + 1 < cli.size() && cli[i + 1][0] != '-') { a.a.push_back(cli[++i]); }
			sc.ops.push_back(a);
		}
	}
	std::vector<std::string> ifs = {"cg", "cg", "cg"}, ofs = {"cg", "cg"};
	if (o.formats) {
		if (tool == "vislcg3") { for (auto f : {"apertium", "niceline", "fst", "jsonl", "plain"}) { ifs.push_back(f); ofs.push_back(f); } if (o.binary) { ifs.push_back("binary"); ofs.push_back("binary"); } ofs.push_back("matxin"); }
		if (tool == "cg-conv") { for (auto f : {"apertium", "niceline", "fst", "jsonl", "plain"}) { ifs.push_back(f); ifs.push_back(f); ofs.push_back(f); } if (o.binary) { ifs.push_back("binary"); ofs.push_back("binary"); } ofs.push_back("matxin"); }
	}
	if (tool == "cg-proc") {
		// stream format of cg-proc: 0 CG, 1 Apertium, 2 Matxin, 3 binary
		static const std::vector<int> pf = {1, 1, 1, 0, 2};
		int f = g.pick(pf);
		if (o.binary && g.chance(0.12)) { f = 3; }
		if (!o.formats && f > 1) { f = 1; }
		sc.set("pf", f);
		ifs = {f == 0 ? "cg" : f == 1 ? "apertium" : f == 2 ? "apertium" : "binary"};
		ofs = {"-"};
		if (g.chance(0.15)) { sc.ops.push_back(Op("arg", "-w")); }
		if (g.chance(0.15)) { sc.ops.push_back(Op("arg", "-1")); }
		if (g.chance(0.1)) { sc.ops.push_back(Op("arg", "-n")); }
		if (g.chance(0.1)) { sc.ops.push_back(Op("arg", "-t")); }
	}
	if (tool == "cg-mwesplit") { ifs = {"cg"}; ofs = {"-"}; }
	std::string ifmt = g.pick(ifs), ofmt = g.pick(ofs);
	sc.set("ifmt", ifmt);
	sc.set("ofmt", ofmt);
	if (tool == "cg-conv" && o.autodetect && ifmt != "plain" && g.chance(0.4)) { sc.set("auto", 1); }
	if (tool == "cg-conv" && g.chance(0.1)) { sc.ops.push_back(Op("arg", "-D")); d.deps = true; }
	if (ifmt == "plain") { d.plain_ok = true; d.p_text = 0; }
	auto doc = gen_doc(g, d);
	if (tool == "cg-mwesplit") { for (size_t i = 0; i < 3; ++i) { std::vector<Op> m; add_mwe(g, m); doc.insert(doc.begin() + static_cast<long>(g.below(doc.size() + 1)), m[0]); } }
	for (auto& x : doc) { sc.ops.push_back(x); }
}

std::string compile_grammar(const std::string& text, bool& ok) {
	fs_put("comp.cg3", text);
	fs_del("comp.bin");
	RunSpec s;
	s.tool = "cg-comp";
	s.argv = {"comp.cg3", "comp.bin"};
	s.cov = false;
	auto r = run(s);
	std::string b;
	ok = r.ok() && fs_get("comp.bin", b);
	return b;
}

std::string stream_bytes(const Scenario& sc, const std::vector<Op>& ops, bool& ok) {
	std::string f = sc.gets("ifmt", "cg");
	std::string raw;
	for (auto& o : ops) { if (o.kind == "raw") { raw += o.s(0); } }
	if (f == "binary") {
		RunSpec s;
		s.tool = "cg-conv";
		s.argv = {"--in-cg", "--out-binary"};
		s.in = ser_doc(ops, Fmt::CG);
		s.cov = false;
		auto r = run(s);
		ok = r.ok();
		return r.out;
	}
	return raw + ser_doc(ops, fmt_from(f));
}

Workload build_stream(const Scenario& sc, const std::vector<Op>* doc) {
	Workload w;
	RunSpec& s = w.spec;
	s.tool = sc.gets("tool", "vislcg3");
	if (sc.geti("guard")) { s.alloc_policy = 3; }
	std::string ifmt = sc.gets("ifmt", "cg"), ofmt = sc.gets("ofmt", "cg");
	std::vector<std::string> extra;
	for (auto& o : sc.ops) { if (o.kind == "arg") { for (auto& a : o.a) { extra.push_back(a); } } }
	if (s.tool == "vislcg3") {
		fs_put("g.cg3", grammar_text(sc));
		s.argv = {"-g", "g.cg3"};
		if (ifmt != "cg") { s.argv.push_back("--in-" + ifmt); }
		if (ofmt != "cg") { s.argv.push_back("--out-" + ofmt); }
	}
	else if (s.tool == "cg-conv") {
		if (!sc.geti("auto")) { s.argv.push_back("--in-" + ifmt); }
		s.argv.push_back("--out-" + ofmt);
	}
	else if (s.tool == "cg-proc") {
		bool ok = false;
		auto b = compile_grammar(grammar_text(sc), ok);
		if (!ok) { w.ok = false; w.why = "grammar does not compile"; return w; }
		fs_put("g.bin", b);
		s.argv = {"-d", "-f", std::to_string(sc.geti("pf", 1))};
	}
	for (auto& a : extra) { s.argv.push_back(a); }
	if (s.tool == "cg-proc") { s.argv.push_back("g.bin"); }
	s.in = stream_bytes(sc, doc ? *doc : sc.ops, w.ok);
	if (s.tool == "cg-proc" && sc.geti("pf", 1) == 1 && sc.kv.count("ifmt") && sc.gets("corpus").empty()) { /* trailing NUL is optional */ }
	return w;
}

std::string strip_noise(const std::string& e) {
	std::string r;
	for (auto& l : split_lines(e)) { if (l.find("Progress:") == std::string::npos) { r += l + "\n"; } }
	return r;
}
bool crashed(const RunOut& r) { return r.kind == Kind::Signal || r.kind == Kind::Hang || r.kind == Kind::Deadlock || r.kind == Kind::None; }
std::string describe(const RunOut& r) {
	return r.verdict() + " out=" + std::to_string(r.out.size()) + "B stderr=" + esc(r.err.substr(0, 300)) + " tail=" + esc(r.out.size() > 120 ? r.out.substr(r.out.size() - 120) : r.out);
}
} // namespace sim
