// P02: a flush is answered completely before the tool asks for more input.
#include "workload.hpp"
namespace sim {
// documents whose flush points are client turns; shared with P03 and P12
static Scenario gen(uint64_t seed, bool thorough) {
	Rng g(seed);
	Scenario sc;
	static const std::vector<std::string> tools = {"vislcg3", "vislcg3", "vislcg3", "cg-conv", "cg-conv", "cg-proc", "cg-proc", "cg-mwesplit"};
	std::string tool = g.pick(tools);
	sc.set("tool", tool);
	static const std::vector<std::string> I = {"cg", "cg", "jsonl", "apertium", "binary"}, O = {"cg", "cg", "jsonl", "apertium", "binary", "niceline", "plain", "fst", "matxin"};
	std::string ifmt = g.pick(I), ofmt = g.pick(O);
	if (tool == "cg-mwesplit") { ifmt = "cg"; ofmt = "cg"; }
	if (tool == "cg-proc") {
		int f = static_cast<int>(g.below(4));
		sc.set("pf", f);
		static const char* in[] = {"cg", "apertium", "apertium", "binary"};
		static const char* out[] = {"cg", "apertium", "matxin", "binary"};
		ifmt = in[f];
		ofmt = out[f];
	}
	sc.set("ifmt", ifmt);
	sc.set("ofmt", ofmt);
	sc.set("untie", g.chance(0.5));
	sc.set("outbuf", g.chance(0.7) ? 4096 : g.range(1, 300));
	if (g.chance(0.5)) { sc.ops.push_back(Op("deliver", gen_chunks(g))); }
	DocOpts d;
	bool ident = g.chance(0.6);
	if (tool == "vislcg3" || tool == "cg-proc") {
		GramOpts go = random_gram_opts(g);
		if (ident) { go = GramOpts(); go.soft = g.chance(0.5); sc.set("ident", 1); }
		d.deps = go.deps;
		d.rels = go.rels;
		for (auto& x : gen_grammar(g, go)) { sc.ops.push_back(x); }
	}
	else { sc.set("ident", 1); }
	if (tool == "vislcg3") { for (auto& a : gen_cli(g)) { if (!sc.ops.empty() && sc.ops.back().kind == "arg" && a[0] != '-') { sc.ops.back().a.push_back(a); } else { sc.ops.push_back(Op("arg", a)); } } }
	d.unique = true;
	d.p_weird = ofmt == "matxin" ? 0 : 0.05;
	d.p_sub = ofmt == "matxin" ? 0 : 0.05;
	d.p_text = g.chance(0.5) ? 0.12 : 0.02;
	d.p_delim = g.chance(0.3) ? 0.0 : 0.2;
	int turns = static_cast<int>(g.range(1, thorough ? 8 : 4));
	for (int t = 0; t < turns; ++t) {
		d.first_id = 1000 * (t + 1);
		d.min_coh = g.chance(0.12) ? 0 : 1;
		d.max_coh = g.chance(0.2) ? 2 : (thorough ? 40 : 14);
		for (auto& x : gen_doc(g, d)) { sc.ops.push_back(x); }
		sc.ops.push_back(Op("k", "FLUSH"));
	}
	sc.set("probe", g.range(0, turns - 1));
	return sc;
}
static Verdict exec(const Scenario& sc) {
	Verdict v;
	auto w = build_stream(sc);
	if (!w.ok || w.spec.in.size() < 2) { v.trivial = true; return v; }
	std::string ifmt = sc.gets("ifmt", "cg"), ofmt = sc.gets("ofmt", "cg"), tool = w.spec.tool;
	// where the client waits
	std::vector<size_t> stops;
	std::vector<std::vector<std::string>> ids; // token ids per turn
	std::vector<std::string> cur;
	std::vector<Op> pre;
	bool ok = true;
	size_t plain = 0;
	for (auto& o : sc.ops) {
		if (!is_doc_op(o)) { continue; }
		pre.push_back(o);
		if (ifmt != "binary") { plain += ser_op(o, fmt_from(ifmt)).size(); }
		if (o.kind == "c") { auto p = o.s(1).rfind('_'); if (p != std::string::npos) { cur.push_back(o.s(1).substr(p, o.s(1).find(' ', p) - p)); } }
		if (o.kind == "k" && o.s(0) == "FLUSH") {
			stops.push_back(ifmt == "binary" ? stream_bytes(sc, pre, ok).size() : plain);
			ids.push_back(cur);
			cur.clear();
		}
	}
	if (!ok || stops.empty() || stops.back() > w.spec.in.size()) { v.trivial = true; return v; }
	if (ifmt == "binary") {
		for (size_t i = 0; i < stops.size(); ++i) { if (i && stops[i] <= stops[i - 1]) { v.trivial = true; return v; } }
	}
	RunSpec s = w.spec;
	s.stops = stops;
	s.untie = sc.geti("untie");
	s.outbuf = static_cast<uint32_t>(sc.geti("outbuf", 4096));
	for (auto& o : sc.ops) { if (o.kind == "deliver") { s.chunks = parse_chunks(o.s(0)); } }
	auto r = run(s);
	v.absorb(r);
	if (crashed(r) || r.waits.size() != stops.size()) {
		if (r.kind == Kind::Hang || crashed(r) || !r.ok()) { v.trivial = true; stat("p02.unfinished." + r.verdict()); return v; }
	}
	stat("p02.client_waits", r.waits.size());
	std::string tag = tool + ":" + ifmt + ">" + ofmt;
	bool ident = sc.geti("ident");
	for (size_t k = 0; k < r.waits.size() && k < stops.size(); ++k) {
		std::string vis = r.out.substr(0, r.waits[k].out);
		if (ident) {
			for (size_t t = 0; t <= k; ++t) {
				for (auto& id : ids[t]) {
					if (vis.find(id) == std::string::npos) {
						v.fail("held-back:" + tag, "client waits after flush " + std::to_string(k + 1) + " (byte " + std::to_string(stops[k]) + ") but token " + id + " of request " + std::to_string(t + 1) + " is not visible; visible: " + esc(vis.size() > 200 ? vis.substr(vis.size() - 200) : vis));
					}
				}
			}
		}
		// the marker the client waits for
		size_t n = 0, need = k + 1;
		if (ofmt == "cg") { for (size_t p = 0; (p = vis.find("<STREAMCMD:FLUSH>", p)) != std::string::npos; ++p) { ++n; } }
		else if (ofmt == "jsonl") { for (size_t p = 0; (p = vis.find("STREAMCMD:FLUSH", p)) != std::string::npos; ++p) { ++n; } }
		else if (ofmt == "apertium") { for (char c : vis) { n += c == 0; } }
		else { n = need; }
		if (n != need) { v.fail("marker:" + tag, "client waits after flush " + std::to_string(k + 1) + " but sees " + std::to_string(n) + " flush markers; visible tail: " + esc(vis.size() > 200 ? vis.substr(vis.size() - 200) : vis)); }
	}
	size_t k = static_cast<size_t>(sc.geti("probe")) % stops.size();
	if (k < r.waits.size()) {
		RunSpec p = w.spec;
		p.in = w.spec.in.substr(0, stops[k]);
		auto f = run(p);
		v.absorb(f);
		std::string vis = r.out.substr(0, r.waits[k].out);
		// a Matxin document is closed once more at the end of the input
		bool same = ofmt == "matxin" ? f.out.compare(0, vis.size(), vis) == 0 : vis == f.out;
		if (f.ok() && !same) { v.fail("answer:" + tag, "after flush " + std::to_string(k + 1) + " the visible answer is not that of a run over the stream so far: " + diff_summary(vis, f.out)); }
	}
	return v;
}
static Register r2({"P02", gen, exec});
} // namespace sim
