// P04: every token, reading and text comes out once, in order; each window meets the
// grammar exactly once; conversions keep what the target format can say.
#include "workload.hpp"
#include <algorithm>
#include <map>
#include <set>
namespace sim {

// Everything that must be accounted for carries a unique marker:
//   W17W word form, D17D delimiter, S17S soft delimiter, B17_0B reading, U17_0U sub-reading, T17T text
struct Mark { char k; std::string id; };
static std::vector<Mark> marks(const std::string& s) {
	std::vector<Mark> r;
	for (size_t i = 0; i < s.size(); ++i) {
		char c = s[i];
		if (!strchr("WDSBUT", c) || c == 0) { continue; }
		size_t j = i + 1;
		while (j < s.size() && (isdigit(static_cast<unsigned char>(s[j])) || s[j] == '_')) { ++j; }
		if (j < s.size() && j > i + 1 && isdigit(static_cast<unsigned char>(s[i + 1])) && s[j] == c) {
			r.push_back({c, s.substr(i, j + 1 - i)});
			i = j;
		}
	}
	return r;
}

static std::vector<Op> doc04(Rng& g, const std::string& ifmt, int n, bool maps, bool deps, bool subs, bool longs, bool flush, double pt, double pd, int& id, int wild = 0, bool ap = false) {
	static const std::vector<std::string> STEM = {"dog", "house", "New York", "été", "日本", "x-y", "a'b", "lion", "word", "𝔘ni", "run"};
	static const std::vector<std::string> WILD = {"a/b", "a^b", "$5", "[x]", "{y}", "a@b", "a\\b", "<b>", "a;b", "5%", "a:b", "&c", "\\", "^", "a]b", "x y z", "(q)", "~", "a=b", "*", "-", "_", "a+b", "+", "#", "x#y"};
	static const std::vector<std::string> TAG = {"N", "V", "A", "Sg", "Pl", "Nom", "<hum>", "<W:12>", "Past", "æ", "ADV", "D", "Q", "P"};
	static const std::vector<std::string> MAP = {"@SUBJ", "@OBJ", "@>N"};
	std::vector<Op> v;
	bool plain = ifmt == "plain";
	// 1: without what Apertium takes as structure
	auto stem = [&]() -> std::string { return wild && g.chance(0.3) ? WILD[g.below(WILD.size() - (wild == 1 ? 4 : 0))] : g.pick(STEM); };
	int in_win = 0;
	auto text = [&]() {
		std::string t = "T" + std::to_string(++id) + "T";
		switch (g.below(5)) {
		case 0: t = "<s id=\"" + t + "\">"; break;
		case 1: t = "</" + t + ">"; break;
		case 2: t = "some text " + t + " été"; break;
		case 3: t = "¶ " + t; break;
		default: break;
		}
		if (longs && g.chance(0.1)) { t += " "; size_t m = g.chance(0.4) ? 1000 + g.below(60) : g.chance(0.05) ? 65500 + g.below(80) : g.below(6000); while (t.size() < m) { t += "lorem"; } }
		v.push_back(Op("t", t));
	};
	for (int i = 0; i < n; ++i) {
		while (g.chance(pt)) { text(); }
		if (flush && g.chance(0.05)) { v.push_back(Op("k", "FLUSH")); in_win = 0; }
		Coh c;
		std::string n1 = std::to_string(++id);
		++in_win;
		bool delim = !plain && g.chance(pd), soft = !plain && !delim && g.chance(0.06);
		if (delim || soft) { c.wf = (delim ? "D" : "S") + n1 + (delim ? "D" : "S"); }
		else { c.wf = stem() + "W" + n1 + "W"; if (plain) { c.wf = "xW" + n1 + "W"; } }
		if (longs && g.chance(0.03)) { while (c.wf.size() < 900 + g.below(300)) { c.wf += "long"; } }
		size_t nr = g.chance(0.07) ? 0 : 1 + g.below(3);
		if (ifmt == "apertium" && nr == 0) { nr = 1; }
		for (size_t k = 0; k < nr; ++k) {
			Rd r;
			r.base = stem() + "B" + n1 + "_" + std::to_string(k) + "B";
			size_t nt = 1 + g.below(4);
			if (longs && g.chance(0.02)) { nt = 150; }
			std::set<std::string> have;
			for (size_t t = 0; t < nt; ++t) { auto x = nt > 20 ? "xt" + std::to_string(t) : g.pick(TAG); if (ap && x[0] == '<') { x = "Q"; } if (have.insert(x).second) { r.tags.push_back(x); } }
			if (maps && g.chance(0.15)) { r.tags.push_back(MAP[g.below(wild == 1 || ifmt == "apertium" || ap ? 2 : 3)]); }
			if (subs && g.chance(0.12)) { Rd s{"subU" + n1 + "_" + std::to_string(k) + "U", {ap ? std::string("N") : g.pick(TAG)}, {}}; r.subs.push_back(s); }
			c.rs.push_back(r);
		}
		if (deps && !c.rs.empty()) { c.rs[0].tags.push_back("#" + std::to_string(in_win) + "->" + std::to_string(g.below(static_cast<uint64_t>(in_win + 2)))); }
		if ((ifmt == "cg" || ifmt == "jsonl" || ifmt == "binary") && g.chance(0.05)) { c.stags.push_back("<st" + std::to_string(g.below(4)) + ">"); }
		v.push_back(coh_op(c));
		if (delim) { in_win = 0; }
	}
	while (g.chance(pt)) { text(); }
	return v;
}

static Scenario gen(uint64_t seed, bool thorough) {
	Rng g(seed);
	Scenario sc;
	static const std::vector<std::string> tools = {"vislcg3", "vislcg3", "vislcg3", "vislcg3", "cg-conv", "cg-conv", "cg-proc", "cg-mwesplit"};
	static const std::vector<std::string> I = {"cg", "cg", "cg", "jsonl", "apertium", "binary", "niceline", "fst", "plain"}, O = {"cg", "cg", "cg", "jsonl", "apertium", "binary", "niceline", "fst", "plain"};
	std::string tool = g.pick(tools), ifmt = g.pick(I), ofmt = g.pick(O);
	if (tool == "cg-mwesplit") { ifmt = ofmt = "cg"; }
	if (tool == "cg-proc") { static const int fs[] = {0, 1, 1, 3}; int f = fs[g.below(4)]; sc.set("pf", f); ifmt = ofmt = f == 0 ? "cg" : f == 1 ? "apertium" : "binary"; }
	sc.set("tool", tool);
	sc.set("ifmt", ifmt);
	sc.set("ofmt", ofmt);
	std::string gram = "identity";
	bool maps = true, deps = false;
	if (tool == "vislcg3" || tool == "cg-proc") {
		gram = g.pick(std::vector<std::string>{"identity", "once", "once", "rules", "rules", "rem"});
		auto line = [&](const std::string& s) { sc.ops.push_back(Op("g", s)); };
		line("DELIMITERS = \"<D.*D>\"r ;");
		if (g.chance(0.6)) { line("SOFT-DELIMITERS = \"<S.*S>\"r ;"); }
		if (g.chance(0.15) && ifmt == "cg") { line("TEXT-DELIMITERS = /^<s.id/r /^¶/r ;"); }
		if (gram == "identity") { line("SECTION"); line("REMOVE (nosuchtag) ;"); }
		else if (gram == "once") { line("BEFORE-SECTIONS"); line("ADD (twice) (ran) ;"); line("AFTER-SECTIONS"); line("ADD (ran) (*) ;"); maps = false; }
		else if (gram == "rem") {
			line("SECTION");
			line(g.pick(std::vector<std::string>{"REMCOHORT (V) ;", "REMCOHORT (Q) (-1 (*)) ;", "REMCOHORT (N) (1 (*)) ;", "REMCOHORT (*) IF (0 (<<<)) (-1 (N)) ;", "REMCOHORT IGNORED (A) ;", "REMCOHORT (*) (NOT 0 (<<<)) (-1 (>>>)) ;", "REMCOHORT (*) ;"}));
			if (g.chance(0.3)) { line("REMCOHORT (Past) (1* (N)) ;"); }
		}
		else {
			GramOpts go = random_gram_opts(g);
			go.cohorts = false;
			deps = go.deps;
			auto gr = gen_grammar(g, go);
			for (auto& x : gr) {
				auto& s = x.s(0);
				if (s.find("DELIMITERS") != std::string::npos) { continue; }
				sc.ops.push_back(x);
			}
			if (g.chance(0.4)) { line("ADDCOHORT (\"<added>\" \"added\" XX) " + std::string(g.chance(0.5) ? "BEFORE " : "AFTER ") + g.pick(std::vector<std::string>{"(Sg)", "(Past)", "(<<<)", "(>>>)", "(N Sg)"}) + " - (XX) (NOT -1 (XX)) (NOT 1 (XX)) ;"); }
			if (g.chance(0.25)) { line("DELIMIT " + g.pick(std::vector<std::string>{"(Nom)", "(Past)", "(Sg)", "(A)"}) + " (1 (N)) ;"); }
		}
		if (ifmt == "apertium") { deps = false; }
		else if (gram != "rules" && gram != "rem") { deps = g.chance(0.15) && (ofmt == "cg" || ofmt == "jsonl"); }
		if (tool == "vislcg3") {
			auto cli = gen_cli(g);
			for (size_t i = 0; i < cli.size(); ++i) {
				if (cli[i] == "--split-mappings" && gram != "rules") { continue; }
				Op a("arg", cli[i]);
				if (i + 1 < cli.size() && cli[i + 1][0] != '-') { a.a.push_back(cli[++i]); }
				sc.ops.push_back(a);
			}
			if (deps && g.chance(0.3)) { sc.ops.push_back(Op("arg", "--dep-delimit", std::to_string(g.range(1, 12)))); }
		}
	}
	sc.set("gram", gram);
	bool flush = g.chance(0.3) && (ifmt == "cg" || ifmt == "jsonl" || ifmt == "apertium" || ifmt == "binary");
	int id = 0;
	int n = g.chance(thorough ? 0.02 : 0.005) ? static_cast<int>(g.range(400, 1600)) : g.chance(0.15) ? static_cast<int>(g.below(3)) : static_cast<int>(g.range(1, thorough && g.chance(0.3) ? 300 : g.chance(0.2) ? 90 : 20));
	bool subs = ifmt != "niceline" && ifmt != "fst" && g.chance(0.4);
	bool texts = ifmt != "plain";
	auto says_all = [](const std::string& f) { return f == "cg" || f == "jsonl" || f == "binary" || f == "apertium"; };
	int wild = !says_all(ifmt) || !says_all(ofmt) || g.chance(0.6) ? 0 : ifmt == "apertium" || ofmt == "apertium" ? 1 : 2;
	for (auto& x : doc04(g, ifmt, n, maps, deps, subs, g.chance(0.25), flush, texts ? (g.chance(0.5) ? 0.25 : 0.05) : 0.0, g.chance(0.2) ? 0.0 : 0.25, id, wild, ofmt == "apertium")) { sc.ops.push_back(x); }
	sc.set("chunks", gen_chunks(g));
	if ((ifmt == "cg" || ifmt == "niceline") && g.chance(0.3)) { sc.set("widen", 1 + g.below(1000000)); }
	return sc;
}

// what a format can say
static bool says(const std::string& f, char k) {
	if (f == "plain") { return k == 'W' || k == 'D' || k == 'S'; }
	if (k == 'T') { return true; }
	if (k == 'U') { return f == "cg" || f == "jsonl" || f == "binary" || f == "apertium"; }
	return true;
}
// cohorts and texts in order; the readings of a cohort as a set, since formats order sub-readings differently
static std::vector<std::string> shape(const std::vector<Mark>& m, const std::string& f, const std::string& f2, bool readings, bool magic) {
	std::vector<std::string> r;
	std::vector<std::string> rd;
	std::string lastw;
	auto close = [&]() { std::sort(rd.begin(), rd.end()); for (auto& x : rd) { r.push_back(x); } rd.clear(); };
	for (auto& x : m) {
		if (!says(f, x.k) || !says(f2, x.k)) { continue; }
		if (x.k == 'B' || x.k == 'U') { if (readings) { rd.push_back(x.id); } continue; }
		if (x.k != 'T') {
			if (x.id == lastw && (f2 == "fst" || magic)) { continue; } // one line per reading; a reading made from the word form
			lastw = x.id;
		}
		else { lastw.clear(); }
		close();
		r.push_back(x.id);
	}
	close();
	return r;
}
static std::string around(const std::vector<std::string>& v, size_t i) {
	std::string s;
	for (size_t k = i < 3 ? 0 : i - 3; k < v.size() && k < i + 5; ++k) { s += (k == i ? " >>" : " ") + v[k]; }
	return s;
}

struct ORd { std::string base; std::vector<std::string> tags; };
static std::vector<ORd> cg_readings(const std::string& s) {
	std::vector<ORd> r;
	for (auto& l : split_lines(s)) {
		if (l.compare(0, 2, "\t\"") != 0 && l.compare(0, 3, "\t\t\"") != 0) { continue; }
		size_t a = l.find('"'), e = l.find("\" ", a + 1);
		ORd o;
		if (e == std::string::npos) { e = l.rfind('"'); o.base = l.substr(a + 1, e - a - 1); }
		else { o.base = l.substr(a + 1, e - a - 1); o.tags = words(l.substr(e + 1)); }
		r.push_back(o);
	}
	return r;
}

// more space between tags says nothing else, however it falls on the buffers lines are read into
static void widen(std::string& in, const std::string& f, uint64_t seed) {
	Rng g(seed);
	std::string r;
	int runs = static_cast<int>(g.range(1, 4));
	auto lines = split_lines(in);
	for (auto& l : lines) {
		size_t at = std::string::npos;
		if (f == "cg" && l[0] == '\t') { at = l.find("\" ", l.find('"') + 1); }
		else if (f == "cg" && l.compare(0, 2, "\"<") == 0) { at = l.find(">\" "); }
		else if (f == "niceline") { at = l.find("] "); }
		if (at == std::string::npos || !runs || !g.chance(3.0 / static_cast<double>(lines.size() + 1))) { r += l + "\n"; continue; }
		--runs;
		std::vector<size_t> sp;
		for (size_t i = at; i < l.size(); ++i) { if (l[i] == ' ') { sp.push_back(i); } }
		size_t n = g.chance(0.3) ? g.range(2, 9) : g.chance(0.5) ? 1024 * static_cast<size_t>(g.range(1, 3)) - l.size() + static_cast<size_t>(g.below(80)) : static_cast<size_t>(g.range(400, 2600));
		l.insert(sp[g.below(sp.size())], std::min<size_t>(n, 9000), ' ');
		r += l + "\n";
		stat("p04.widened");
	}
	in = r;
}

static Verdict exec(const Scenario& sc) {
	Verdict v;
	std::string ifmt = sc.gets("ifmt"), ofmt = sc.gets("ofmt"), gram = sc.gets("gram");
	auto w = build_stream(sc);
	if (!w.ok || w.spec.in.empty()) { v.trivial = true; return v; }
	w.spec.chunks = parse_chunks(sc.gets("chunks"));
	if (sc.geti("widen")) { widen(w.spec.in, ifmt, static_cast<uint64_t>(sc.geti("widen"))); }
	std::string tag = w.spec.tool + ":" + ifmt + ">" + ofmt;
	auto r = run(w.spec);
	v.absorb(r);
	if (!r.ok()) {
		if (r.kind == Kind::Hang && gram == "rules") { v.trivial = true; return v; }
		stat("p04.unfinished." + tag + "." + r.verdict());
		bool toobig = false; // what a format cannot hold may be refused, but not silently changed
		for (auto& o : sc.ops) { for (auto& a : o.a) { toobig |= a.size() > 65000; } }
		if (toobig && (ofmt == "binary" || ifmt == "binary")) { stat("p04.refused"); v.trivial = true; return v; }
		v.fail("fails:" + tag, describe(r));
		return v;
	}
	std::string in_doc;
	for (auto& o : sc.ops) { if (is_doc_op(o)) { in_doc += ser_op(o, Fmt::CG); } }
	std::string out = r.out, cg = r.out;
	if (ofmt != "cg" && ofmt != "plain") {
		RunSpec b;
		b.tool = "cg-conv";
		b.argv = {"--in-" + ofmt, "--out-cg"};
		b.in = r.out;
		auto br = run(b);
		v.absorb(br);
		if (!br.ok()) { if (!r.out.empty()) { v.fail("unreadable:" + tag, "the tool's own output cannot be read back: " + describe(br)); } return v; }
		cg = br.out;
	}
	if (ofmt == "binary" || ofmt == "jsonl") { out = cg; }
	bool readings = gram == "identity" || gram == "once";
	auto want = shape(marks(in_doc), ifmt, ofmt, readings, gram == "once"), got = shape(marks(out), ifmt, ofmt, readings, gram != "identity");
	v.hash = mix(v.hash, want.size());
	stat("p04.items", want.size());
	if (gram == "rem") {
		// what is left must be in order, and no text may disappear
		std::set<std::string> have(got.begin(), got.end());
		std::vector<std::string> w2;
		for (auto& x : want) { if (x[0] == 'T' || have.count(x)) { w2.push_back(x); } }
		want = w2;
	}
	if (want != got) {
		size_t i = 0;
		while (i < want.size() && i < got.size() && want[i] == got[i]) { ++i; }
		std::multiset<std::string> a(want.begin(), want.end()), b(got.begin(), got.end());
		std::string what = "order";
		for (auto& x : want) { if (b.count(x) < a.count(x)) { what = std::string("lost-") + x[0]; break; } }
		if (what == "order") { for (auto& x : got) { if (b.count(x) > a.count(x)) { what = std::string("doubled-") + x[0]; break; } } }
		v.fail(what + ":" + gram + ":" + tag, what + " at item " + std::to_string(i) + " of " + std::to_string(want.size()) + ": expected" + around(want, i) + " but got" + around(got, i));
		return v;
	}
	if (!readings || ofmt == "plain" || ifmt == "plain") { return v; }
	// every word form
	auto wfs = [](const std::string& d) {
		std::map<std::string, std::string> m;
		for (auto& l : split_lines(d)) { if (l.compare(0, 2, "\"<") == 0) { auto k = marks(l); auto e = l.find(">\"", 2); if (!k.empty() && e != std::string::npos) { m[k[0].id] = l.substr(2, e - 2); } } }
		return m;
	};
	auto wa = wfs(in_doc), wb = wfs(cg);
	for (auto& x : wb) {
		auto it = wa.find(x.first);
		if (it != wa.end() && it->second != x.second) { v.fail("wordform:" + tag, "word form \"" + it->second + "\" comes out as \"" + x.second + "\""); return v; }
	}
	// tags of every reading, through the independent reader
	std::map<std::string, std::vector<std::string>> exp;
	for (auto& x : cg_readings(in_doc)) { exp[x.base] = x.tags; }
	for (auto& x : cg_readings(cg)) {
		auto it = exp.find(x.base);
		if (it == exp.end()) {
			if (x.base.find("added") == std::string::npos && ifmt != "fst" && ofmt != "fst" && ifmt != "niceline" && ofmt != "niceline" && (!marks(x.base).empty() && marks(x.base)[0].k == 'B')) { v.fail("base:" + tag, "a reading has the base form \"" + x.base + "\", which the input does not have"); return v; }
			continue;
		}
		std::multiset<std::string> a, b;
		auto norm = [](const std::string& t) { return t.size() > 2 && t[0] == '<' && t.back() == '>' ? t.substr(1, t.size() - 2) : t; };
		for (auto& t : it->second) { if (t[0] != '#') { a.insert(norm(t)); } }
		bool ran = false;
		for (auto& t : x.tags) {
			if (t == "ran") { ran = true; continue; }
			if (t.compare(0, 4, "ADD:") == 0) { continue; } // trace
			if (t == "twice") { v.fail("twice:" + tag, "a window was given to the grammar twice: reading \"" + x.base + "\" is marked " + join(x.tags)); return v; }
			if (t[0] == '#' || t.compare(0, 3, "<W:") == 0) { continue; }
			b.insert(norm(t));
		}
		a.erase("W:12");
		b.erase("W:12");
		if (gram == "once" && !ran && x.base.find('B') != std::string::npos) { v.fail("never:" + tag, "a window was never given to the grammar: reading \"" + x.base + "\" is not marked"); return v; }
		if (a != b) { v.fail("tags:" + tag, "reading \"" + x.base + "\" has tags {" + join(std::vector<std::string>(b.begin(), b.end())) + "} instead of {" + join(std::vector<std::string>(a.begin(), a.end())) + "}"); return v; }
	}
	return v;
}
static Register r4({"P04", gen, exec});
} // namespace sim
