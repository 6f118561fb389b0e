// P12: tools connected by pipes give what they give one after the other, whatever format runs
// on the pipes, and a flush sent in at the front is answered at the end while the client waits.
//
// The tools read and write blocking byte streams only, so a linear pipeline is a Kahn network:
// what a stage writes depends on the bytes it reads, never on when.  What does depend on the
// schedule is who waits for whom; so each stage is run with exactly the bytes its predecessor
// has let out when everything before it is blocked, in pipe-sized pieces.
#include "workload.hpp"
#include <algorithm>
#include <map>
#include <set>
namespace sim {

// ops:  stage <tool> <in> <out> <grammar> <arg>...   g <line> / g2 <line>   pipe <chunks>
struct Stage { std::string tool, in, out, gram; std::vector<std::string> args; bool deps = false; };

static Scenario gen(uint64_t seed, bool thorough) {
	Rng g(seed);
	Scenario sc;
	// what the pipes carry decides what a document may say
	static const std::vector<std::string> kinds = {"full", "full", "full", "full", "apertium", "apertium", "lines", "cgonly"};
	std::string kind = g.pick(kinds);
	sc.set("kind", kind);
	bool lossy = kind == "apertium" || kind == "lines";
	std::vector<std::string> F;
	if (kind == "full") { F = {"cg", "jsonl", "binary"}; }
	else if (kind == "apertium") { F = {"cg", "jsonl", "binary", "apertium", "apertium", "apertium"}; }
	else if (kind == "lines") { F = {"cg", "jsonl", "binary", "niceline", "niceline", "fst", "fst", "apertium"}; }
	else { F = {"cg"}; }
	std::vector<std::string> SRC = {"cg", "cg", "jsonl"};
	if (kind == "apertium") { SRC.push_back("apertium"); }
	if (kind == "cgonly") { SRC = {"cg"}; }
	sc.set("src", g.pick(SRC));
	// binary packets are windows, so what is made binary by one tool is not cut up again by the next:
	// the analysis is only the same where every sentence is flushed by itself
	bool sent = kind == "full" && g.chance(0.5);
	if (sent) { sc.set("sent", 1); }
	auto into = [&](const std::string& f) { return !sent && f == "binary" ? std::string("cg") : f; };
	auto outof = [&](const std::string& f) { return lossy && f == "jsonl" ? std::string("cg") : f; }; // removed readings are in JSONL only
	std::string dst = g.pick(F);
	sc.set("dst", dst);
	bool corpus = !sent && kind != "lines" && kind != "apertium" && g.chance(0.15);
	DocOpts d;
	int grams = 0;
	bool deps = false, spans = false, ident = true;
	auto add_grammar = [&](const std::string& op, const std::string& in) {
		GramOpts go = random_gram_opts(g);
		if (kind == "lines") { go.rels = go.deps = false; }
		if (kind == "apertium") { go.rels = go.deps = false; }
		if (kind != "cgonly") { go.rels = false; }
		if (go.deps) { go.spans = false; }
		if (sent) { go.cohorts = go.delim = false; }
		if (in != "cg") { go.spans = false; } // how much of the next window there is already
		if (go.deps && kind == "full") { go.cohorts = false; } // binary has the dependencies they make even if nothing else does
		if (lossy) { go.cohorts = false; } // their dependencies show in binary only
		std::vector<Op> gr;
		if (g.chance(0.25)) {
			go = GramOpts();
			gr.push_back(Op("g", "DELIMITERS = \"<$.>\" \"<$!>\" \"<$?>\" \"<.>\" ;"));
			if (g.chance(0.5)) { gr.push_back(Op("g", "SOFT-DELIMITERS = \"<$,>\" \"<,>\" ;")); }
			gr.push_back(Op("g", "SECTION"));
			gr.push_back(Op("g", "REMOVE (nosuchtag) ;"));
		}
		else {
			ident = false;
			if (kind == "cgonly" && g.chance(0.3)) { gr = gen_rich(g, 7); go.deps = true; }
			else { gr = gen_grammar(g, go); }
		}
		for (auto& x : gr) { if (lossy && x.s(0).find("SPLITCOHORT") != std::string::npos) { continue; } sc.ops.push_back(Op(op, x.s(0))); }
		deps |= go.deps;
		spans |= go.spans;
	};
	int n = static_cast<int>(g.range(1, thorough ? 5 : 4));
	for (int i = 0; i < n; ++i) {
		Op o("stage");
		int k = static_cast<int>(g.below(10));
		if (i == 0 && g.chance(0.6)) { k = 0; }
		if (k < 5 && grams < 2) {
			++grams;
			o.a = {"vislcg3", into(g.pick(F)), outof(g.pick(F)), grams == 1 ? "g" : "g2"};
			add_grammar(o.s(3), o.s(1));
			for (auto& a : gen_cli(g)) { if (a != "-t" && a != "--unique-tags" && a != "--split-mappings") { o.a.push_back(a); } }
			if (o.s(1) != "cg" || sent) { o.a.erase(std::remove(o.a.begin(), o.a.end(), "--always-span"), o.a.end()); }
			if (o.s(1) != "cg" || sent) { for (size_t q = 4; q < o.a.size();) { if (o.a[q] == "--soft-limit" || o.a[q] == "--hard-limit") { o.a.erase(o.a.begin() + static_cast<long>(q), o.a.begin() + static_cast<long>(q) + 2); } else { ++q; } } }
		}
		else if (k < 8) { o.a = {"cg-conv", g.pick(F), g.pick(F), ""}; }
		else if (k < 9 && kind != "apertium" && kind != "lines") { o.a = {"cg-mwesplit", "cg", "cg", ""}; }
		else { o.a = {"cg-conv", "cg", g.pick(F), ""}; }
		sc.ops.push_back(o);
	}
	// CG merges readings that differ in mapping tags only, JSONL and binary keep them apart for the next grammar
	bool nomap = kind != "cgonly" && grams > 1;
	if (nomap) {
		corpus = false;
		d.mappings = false;
		for (auto& o : sc.ops) { if (o.kind == "g" || o.kind == "g2") { for (size_t i = 0; i + 1 < o.a[0].size(); ++i) { if (o.a[0][i] == '@' && o.a[0][i + 1] != '-' && !isdigit(static_cast<unsigned char>(o.a[0][i + 1]))) { o.a[0][i] = 'm'; } } } }
	}
	if (g.chance(0.7)) { sc.ops.push_back(Op("pipe", gen_chunks(g))); }
	if (g.chance(0.7)) { sc.ops.push_back(Op("pipe", gen_chunks(g))); }
	if (g.chance(0.3)) { sc.set("ident", ident); }
	if (corpus) {
		auto& it = g.pick(corpus_cg());
		if (it.grammar.find("EXTERNAL") == std::string::npos && it.grammar.find("nclude") == std::string::npos && it.grammar.find("NCLUDE") == std::string::npos) {
			bool opts = false;
			for (auto& a : it.args) { if (a[0] == '-') { opts = true; } }
			if (!opts || kind == "cgonly") {
				sc.set("corpus", it.name);
				sc.ops.erase(std::remove_if(sc.ops.begin(), sc.ops.end(), [](const Op& o) { return o.kind == "g"; }), sc.ops.end());
				for (auto& l : split_lines(it.grammar)) { sc.ops.push_back(Op("g", l)); }
			}
		}
	}
	if (deps && kind == "full") { sc.ops.erase(std::remove_if(sc.ops.begin(), sc.ops.end(), [](const Op& o) { return o.kind != "stage" && o.s(0).find("COHORT") != std::string::npos; }), sc.ops.end()); }
	d.deps = deps && !lossy && g.chance(0.6);
	if (d.deps) { sc.ops.erase(std::remove_if(sc.ops.begin(), sc.ops.end(), [](const Op& o) { return o.kind != "stage" && (o.s(0).find("DELIMIT ") == 0); }), sc.ops.end()); }
	if (deps && kind != "cgonly") { for (auto& o : sc.ops) { o.a.erase(std::remove(o.a.begin(), o.a.end(), "--always-span"), o.a.end()); } } // numbers that span are not names of cohorts only
	if (deps) { // parents in other windows have no number in CG
		for (auto& o : sc.ops) {
			if (o.kind != "stage") { continue; }
			for (size_t q = 4; q < o.a.size();) { if (o.a[q] == "--soft-limit" || o.a[q] == "--hard-limit") { o.a.erase(o.a.begin() + static_cast<long>(q), o.a.begin() + static_cast<long>(q) + 2); } else { ++q; } }
		}
	}
	d.unique = true;
	d.p_long = g.chance(0.3) ? 0.04 : 0.0;
	d.p_sub = kind == "lines" ? 0 : 0.06;
	d.p_text = g.chance(0.5) ? 0.12 : 0.02;
	d.p_delim = g.chance(0.3) ? 0.0 : 0.2;
	d.ignore = kind == "cgonly" && g.chance(0.2);
	d.vars = !lossy && !spans && g.chance(0.25);
	d.p_cmd = d.ignore || d.vars ? 0.06 : 0;
	bool flush = kind != "lines" && (sent || g.chance(0.7));
	int turns = flush ? static_cast<int>(g.range(1, thorough ? 6 : 3)) : 1;
	for (int t = 0; t < turns; ++t) {
		d.first_id = 1000 * (t + 1);
		d.min_coh = g.chance(0.12) ? 0 : 1;
		d.max_coh = g.chance(0.2) ? 2 : (thorough ? 40 : 14);
		auto dd = gen_doc(g, d);
		// variables stand in front of sentences
		for (size_t i = 0; i < dd.size();) {
			auto var = [](const Op& o) { return o.kind == "k" && (o.s(0).find("SETVAR") == 0 || o.s(0).find("REMVAR") == 0); };
			auto delim = [](const Op& o) { return o.kind == "c" && (o.s(1) == "$." || o.s(1) == "$!" || o.s(1) == "$?"); };
			if (var(dd[i])) {
				bool good = false;
				for (size_t k = i; k-- > 0 || (good = true, false);) { if (dd[k].kind == "c") { good = delim(dd[k]); break; } }
				bool after = false;
				for (size_t k = i; k < dd.size(); ++k) { after |= dd[k].kind == "c"; }
				if (!good || !after) { dd.erase(dd.begin() + static_cast<long>(i)); continue; }
			}
			++i;
		}
		for (auto& x : dd) {
			Coh c;
			if (x.kind == "c" && lossy && op_coh(x, c)) {
				// only what those formats can say
				c.stags.clear();
				if (c.rs.empty()) { c.rs.push_back(Rd{c.wf, {"N"}, {}}); }
				std::function<void(Rd&)> fix = [&](Rd& r) {
					for (auto& t2 : r.tags) { if (t2 == "@>N" || t2 == "@P<") { t2 = "@MOD"; } }
					for (auto& t2 : r.tags) { if (t2.size() > 2 && t2[0] == '<') { t2 = t2.substr(1, 2) == "W:" ? "num" : t2.substr(1, t2.size() - 2); } }
					std::sort(r.tags.begin() + 1, r.tags.end());
					r.tags.erase(std::unique(r.tags.begin(), r.tags.end()), r.tags.end());
					if (kind == "lines") { r.subs.clear(); }
					for (auto& s : r.subs) { fix(s); }
				};
				for (auto& r : c.rs) { fix(r); }
				x = coh_op(c);
			}
			if (x.kind == "t" && kind == "lines") { x.a[0] = "<" + x.s(0); }
			sc.ops.push_back(x);
		}
		if (flush && !(sc.ops.back() == Op("k", "FLUSH"))) { sc.ops.push_back(Op("k", "FLUSH")); }
	}
	if (flush && g.chance(0.5)) { for (auto& x : gen_doc(g, DocOpts())) { if (!lossy && x.kind == "c") { sc.ops.push_back(x); } } }
	if (flush) { sc.set("probe", g.range(0, turns - 1)); }
	return sc;
}

// what has to hold for every document, however it was cut down
static std::vector<Op> normalise(const std::vector<Op>& in, bool sent, bool gdeps) {
	std::vector<Op> r;
	auto delim = [](const Op& o) { return o.kind == "c" && (o.s(1) == "$." || o.s(1) == "$!" || o.s(1) == "$?"); };
	for (size_t i = 0; i < in.size(); ++i) {
		Coh c;
		Op o = in[i];
		if (op_coh(o, c)) {
			// readings that differ in mapping tags only are merged by some formats, and one without any goes
			std::vector<Rd> rs;
			std::set<std::string> seen;
			std::function<std::string(const Rd&)> key = [&](const Rd& r2) {
				std::string k = r2.base;
				for (auto& t : r2.tags) { if (t[0] != '@') { k += " " + t; } }
				for (auto& s : r2.subs) { k += " / " + key(s); }
				return k;
			};
			for (auto& x : c.rs) { if (seen.insert(key(x)).second) { rs.push_back(x); } }
			if (rs.size() != c.rs.size()) { c.rs = rs; o = coh_op(c); }
		}
		r.push_back(o);
		if (sent && delim(o) && i + 1 < in.size() && !(in[i + 1] == Op("k", "FLUSH"))) { r.push_back(Op("k", "FLUSH")); }
	}
	// parents within the sentence
	std::vector<Op*> win;
	bool deps = false;
	for (auto& o : r) { if (o.kind == "c") { for (auto& x : o.a) { deps |= x.find("->") != std::string::npos; } } }
	auto close = [&]() {
		for (size_t i = 0; i < win.size(); ++i) {
			Coh c;
			op_coh(*win[i], c);
			if ((deps || gdeps) && c.rs.empty()) { c.rs.push_back(Rd{c.wf, {"N"}, {}}); *win[i] = coh_op(c); }
			bool any = false;
			for (auto& x : c.rs) { for (auto& t : x.tags) { long a, b; if (sscanf(t.c_str(), "#%ld->%ld", &a, &b) == 2) { any = true; t = "#" + std::to_string(i + 1) + "->" + std::to_string(b > static_cast<long>(win.size()) ? 0 : b); } } }
			if (deps && !any) { any = true; c.rs[0].tags.push_back("#" + std::to_string(i + 1) + "->0"); }
			if (any) {
				// on every reading, as grammars without dependencies just see tags and may remove readings
				std::string dep;
				for (auto& x : c.rs) { for (auto& t : x.tags) { long a, b; if (sscanf(t.c_str(), "#%ld->%ld", &a, &b) == 2) { dep = t; } } }
				for (auto& x : c.rs) { if (std::find(x.tags.begin(), x.tags.end(), dep) == x.tags.end()) { x.tags.push_back(dep); } }
				*win[i] = coh_op(c);
			}
		}
		win.clear();
	};
	for (auto& o : r) {
		if (o.kind == "k" && o.s(0) == "FLUSH") { close(); }
		if (o.kind != "c") { continue; }
		win.push_back(&o);
		if (delim(o)) { close(); }
	}
	close();
	return r;
}
static void put_grammars(const Scenario& sc) {
	std::string a, b;
	// CG that does not look for dependencies has them as tags of the reading, so only leaves them alone when it leaves readings alone
	bool deps = false;
	for (auto& o : sc.ops) {
		if (o.kind == "c") { for (auto& x : o.a) { deps |= x.find("->") != std::string::npos; } }
		if (o.kind == "g" || o.kind == "g2") { deps |= o.s(0).find("PARENT") != std::string::npos || o.s(0).find("SETCHILD") != std::string::npos; }
	}
	for (auto& o : sc.ops) {
		if (o.kind == "g") { a += o.s(0) + "\n"; }
		if (o.kind == "g2") { b += o.s(0) + "\n"; }
	}
	auto look = [&](std::string& x) { if (deps && x.find("REMOVE (nosuchtag)") == std::string::npos && !x.empty()) { x += "\nSETPARENT (nosuchtag) TO (-1 (nosuchtag)) ;\n"; } };
	look(a);
	look(b);
	fs_put("p_g.cg3", a);
	fs_put("p_g2.cg3", b);
}
static RunSpec spec_of(const Stage& st) {
	RunSpec s;
	s.tool = st.tool;
	if (st.tool == "vislcg3") {
		s.argv = {"-g", "p_" + st.gram + ".cg3"};
		if (st.in != "cg") { s.argv.push_back("--in-" + st.in); }
		if (st.out != "cg") { s.argv.push_back("--out-" + st.out); }
	}
	else if (st.tool == "cg-conv") {
		s.argv = {"--in-" + st.in, "--out-" + st.out};
		if (st.deps) { s.argv.push_back("-D"); }
	}
	for (auto& a : st.args) { s.argv.push_back(a); }
	return s;
}
// stages with the converters their formats need between them
static std::vector<Stage> plumb(const std::vector<Stage>& v, const std::string& src, const std::string& dst) {
	std::vector<Stage> r;
	std::string cur = src;
	for (auto& s : v) {
		if (s.in != cur) { r.push_back({"cg-conv", cur, s.in, "", {}, false}); }
		r.push_back(s);
		cur = s.out;
	}
	if (cur != dst || r.empty()) { r.push_back({"cg-conv", cur, dst, "", {}, false}); }
	return r;
}
static std::string show(const std::vector<Stage>& v) {
	std::string s;
	for (auto& x : v) { s += (s.empty() ? "" : " | ") + x.tool + ":" + x.in + ">" + x.out; }
	return s;
}

// the document in a form that does not depend on the format it came through
static std::vector<std::string> canon(const std::string& cg, bool lossy, bool deps) {
	std::vector<std::string> r;
	std::string text;
	std::vector<std::string> rds;
	// readings that differ in mapping tags only are one reading in CG
	auto merge = [](std::vector<std::string>& v) {
		std::map<std::string, std::vector<std::set<std::string>>> m;
		std::map<std::string, std::vector<std::string>> plain;
		for (auto& x : v) {
			std::vector<std::string> p;
			std::vector<std::set<std::string>> maps(1);
			for (auto& w : words(x)) {
				if (w == "/") { maps.emplace_back(); }
				if (w[0] == '@') { maps.back().insert(w); }
				else { p.push_back(w); }
			}
			// and so are those that differ in how often they have a tag only
			size_t part = 0;
			for (size_t i = 0; i < p.size();) {
				if (p[i] == "/") { part = i + 1; }
				if (std::find(p.begin() + static_cast<long>(part), p.begin() + static_cast<long>(i), p[i]) != p.begin() + static_cast<long>(i)) { p.erase(p.begin() + static_cast<long>(i)); }
				else { ++i; }
			}
			std::string key = join(p);
			auto& to = m[key];
			if (to.size() < maps.size()) { to.resize(maps.size()); }
			for (size_t i = 0; i < maps.size(); ++i) { to[i].insert(maps[i].begin(), maps[i].end()); }
			plain[key] = p;
		}
		v.clear();
		for (auto& kv : m) {
			std::string x = "\t";
			size_t i = 0;
			auto put = [&]() { for (auto& t : kv.second[i]) { x += " " + t; } };
			for (auto& w : plain[kv.first]) {
				if (w == "/") { put(); ++i; }
				x += (x.size() > 1 ? " " : "") + w;
			}
			put();
			v.push_back(x);
		}
	};
	std::string vars;
	auto flush_text = [&]() {
		text = vars + text; // windows have their variables in front of their text
		vars.clear();
		merge(rds);
		std::sort(rds.begin(), rds.end()); r.insert(r.end(), rds.begin(), rds.end()); rds.clear(); if (!text.empty()) { r.push_back("text " + text); text.clear(); } };
	for (auto& l : split_lines(cg)) {
		size_t t = 0;
		while (t < l.size() && l[t] == '\t') { ++t; }
		bool coh = l.compare(0, 2, "\"<") == 0, rd = t && t < l.size() && l[t] == '"';
		if (l.compare(0, 3, ";\t\"") == 0 || l.compare(0, 2, ";\t") == 0) { continue; } // removed readings: only some formats carry them
		if (!coh && !rd) {
			if (l.compare(0, 17, "<STREAMCMD:SETVAR") == 0 || l.compare(0, 17, "<STREAMCMD:REMVAR") == 0) { vars += l; continue; }
			for (char c : l) { if (!isspace(static_cast<unsigned char>(c)) && !(lossy && strchr("[]\\", c))) { text += c; } }
			continue;
		}
		if (coh) { flush_text(); }
		size_t e = l.rfind(coh ? ">\"" : "\"");
		if (rd) { e = l.find("\" ", t + 1); if (e == std::string::npos) { e = l.rfind('"'); } }
		std::string head = l.substr(0, e + (coh ? 2 : 1));
		for (auto& w : words(l.substr(head.size()))) {
			std::string x = w;
			if (lossy && x.size() > 2 && x[0] == '<' && x.back() == '>') { x = x.substr(1, x.size() - 2); }
			head += " " + x;
		}
		if (coh) { r.push_back(head); }
		else if (t > 1 && !rds.empty()) { rds.back() += " / " + head; }
		else { rds.push_back(head); }
	}
	flush_text();
	// numbers in dependencies are only names: say where the parent stands instead
	std::vector<std::pair<long, long>> num; // cohort -> block, own number
	std::map<std::pair<long, long>, long> at;
	long block = 0, prev = 0;
	auto dep = [](const std::string& w, long& a, long& b) { char x = 0; return w.size() > 3 && w[0] == '#' && sscanf(w.c_str(), "#%ld->%ld%c", &a, &b, &x) == 2; };
	for (size_t i = 0; i < r.size(); ++i) {
		if (r[i].compare(0, 2, "\"<") == 0) { num.emplace_back(block, -1); continue; }
		if (r[i][0] != '\t' || num.empty()) { continue; }
		long a, b;
		for (auto& w : words(r[i])) {
			if (!dep(w, a, b) || num.back().second >= 0) { continue; }
			if (a <= prev) { ++block; }
			prev = a;
			num.back() = {block, a};
			at[num.back()] = static_cast<long>(num.size());
		}
	}
	size_t c = 0;
	for (auto& x : r) {
		if (x.compare(0, 2, "\"<") == 0) { ++c; continue; }
		if (x[0] != '\t' || !c) { continue; }
		long a, b;
		auto ws = words(x);
		for (auto& w : ws) {
			if (!dep(w, a, b)) { continue; }
			auto it = at.find({num[c - 1].first, b});
			w = "#" + (b == 0 ? "top" : it == at.end() ? "none" : it->second == static_cast<long>(c) ? "self" : std::to_string(it->second - static_cast<long>(c)));
			if (w == "#self" || w == "#none" || !deps) { w.clear(); } // not attached
		}
		if (x.find(" / ") != std::string::npos) { // sub-readings
			x.clear();
			auto b0 = ws.begin();
			for (auto it2 = ws.begin();; ++it2) {
				if (it2 == ws.end() || *it2 == "/") {
					if (b0 != it2) { std::sort(b0 + 1, it2); }
					for (; b0 != it2; ++b0) { if (!b0->empty()) { x += " " + *b0; } }
					if (it2 == ws.end()) { break; }
					x += " /";
					b0 = it2 + 1;
				}
			}
			continue;
		}
		ws.erase(std::remove(ws.begin(), ws.end(), ""), ws.end());
		std::sort(ws.begin() + (ws.empty() ? 0 : 1), ws.end()); // mapping tags are split and merged again
		x = "\t" + join(ws);
	}
	for (auto it = r.begin(); it != r.end();) {
		auto e = it;
		while (e != r.end() && e->compare(0, 2, "\"<") != 0 && e->compare(0, 5, "text ") != 0) { ++e; }
		std::sort(it, e);
		it = e == r.end() ? e : e + 1;
	}
	return r;
}

static Verdict exec(const Scenario& sc) {
	Verdict v;
	put_grammars(sc);
	std::string kind = sc.gets("kind"), src = sc.gets("src", "cg"), dst = sc.gets("dst", "cg");
	bool lossy = false;
	std::vector<Stage> work;
	std::vector<std::string> pipes;
	std::vector<Op> doc;
	bool deps = false, ignore = false;
	std::map<std::string, bool> gdeps;
	for (auto& o : sc.ops) {
		if (o.kind == "stage") { Stage s{o.s(0), o.s(1), o.s(2), o.s(3), {}, false}; for (size_t i = 4; i < o.a.size(); ++i) { s.args.push_back(o.a[i]); } work.push_back(s); }
		if (o.kind == "pipe") { pipes.push_back(o.s(0)); }
		if (is_doc_op(o)) {
			doc.push_back(o);
			if (o.kind == "k" && (o.s(0) == "IGNORE" || o.s(0) == "RESUME")) { ignore = true; }
			if (o.kind == "c") { for (auto& a : o.a) { deps |= a.find("->") != std::string::npos; } }
		}
		if (o.kind == "g" || o.kind == "g2") { for (auto k : {"SETPARENT", "REMPARENT", "SWITCHPARENT", "SETCHILD"}) { if (o.s(0).find(k) != std::string::npos) { gdeps[o.kind] = true; } } }
	}
	doc = normalise(doc, sc.geti("sent"), !gdeps.empty());
	auto st = plumb(work, src, dst);
	for (auto& s : st) { for (auto& f : {s.in, s.out}) { lossy |= f != "cg" && f != "jsonl" && f != "binary"; } }
	// converters look for dependencies from where there may be some
	auto mark = [&](std::vector<Stage>& x) {
		bool cur = deps;
		for (auto& s : x) {
			s.deps = cur;
			if (s.tool == "vislcg3" && gdeps[s.gram]) { cur = true; }
		}
		return cur;
	};
	bool enddeps = mark(st);
	std::string tag = show(st);
	std::string in = ser_doc(doc, fmt_from(src));
	if (in.empty()) { v.trivial = true; return v; }
	// one after the other, on files
	std::vector<std::string> seq{in};
	for (auto& s : st) {
		RunSpec r = spec_of(s);
		r.in = seq.back();
		auto o = run(r);
		v.absorb(o);
		if (!o.ok()) {
			stat("p12.unfinished." + s.tool + "." + o.verdict());
			if (o.kind == Kind::Hang && s.tool == "vislcg3") { v.trivial = true; return v; } // rules that loop
			if (o.kind == Kind::Exit && (r.in.empty() || o.err.find("Grammar could not be parsed") != std::string::npos || (o.err.find("p_g") != std::string::npos && o.err.find(": Error: ") != std::string::npos))) { v.trivial = true; return v; } // no input is refused
			v.fail("fails:" + s.tool + ":" + s.in + ">" + s.out, tag + ": stage " + std::to_string(seq.size()) + " " + describe(o));
			return v;
		}
		seq.push_back(o.out);
	}
	stat("p12.stages", st.size());
	// coupled, with a client that waits at every flush
	std::vector<size_t> stops;
	std::vector<std::vector<std::string>> ids;
	{
		size_t n = 0;
		std::vector<std::string> cur;
		for (auto& o : doc) {
			n += ser_op(o, fmt_from(src)).size();
			if (o.kind == "c") { auto p = o.s(1).rfind('_'); if (p != std::string::npos) { cur.push_back(o.s(1).substr(p, o.s(1).find(' ', p) - p)); } }
			if (o.kind == "k" && o.s(0) == "FLUSH") { stops.push_back(n); ids.push_back(cur); cur.clear(); }
		}
	}
	std::string data = in;
	std::vector<size_t> at = stops;
	for (size_t i = 0; i < st.size(); ++i) {
		RunSpec r = spec_of(st[i]);
		r.in = data;
		// several turns may show the same bytes at this point
		std::vector<size_t> uniq;
		for (auto x : at) { if (uniq.empty() || uniq.back() != x) { uniq.push_back(x); } }
		if (!uniq.empty() && uniq.front() == 0) { uniq.erase(uniq.begin()); }
		r.stops = uniq;
		if (!pipes.empty()) { r.chunks = parse_chunks(pipes[i % pipes.size()]); }
		auto o = run(r);
		v.absorb(o);
		if (!o.ok()) { v.fail("coupled:" + st[i].tool + ":" + st[i].in + ">" + st[i].out, tag + ": stage " + std::to_string(i + 1) + " fails in the pipeline only: " + describe(o)); return v; }
		if (o.out != seq[i + 1]) { v.fail("composed:" + st[i].tool + ":" + st[i].in + ">" + st[i].out, tag + ": stage " + std::to_string(i + 1) + " gives something else in the pipeline: " + diff_summary(o.out, seq[i + 1])); return v; }
		std::map<size_t, size_t> seen{{0, 0}};
		for (size_t k = 0; k < uniq.size(); ++k) {
			if (k >= o.waits.size()) { v.fail("nowait", tag + ": stage " + std::to_string(i + 1) + " never asks for the input of turn " + std::to_string(k + 2)); return v; }
			seen[uniq[k]] = o.waits[k].out;
		}
		for (auto& x : at) { x = seen[x]; }
		data = o.out;
	}
	stat("p12.client_waits", stops.size());
	bool marker = dst == "cg" || dst == "jsonl" || dst == "apertium";
	for (auto& s : st) { if (s.out == "niceline" || s.out == "fst") { marker = false; } }
	for (size_t k = 0; k < at.size(); ++k) {
		std::string vis = data.substr(0, at[k]);
		size_t n = 0;
		if (dst == "apertium") { n = static_cast<size_t>(std::count(vis.begin(), vis.end(), '\0')); }
		else { for (size_t p = 0; (p = vis.find("STREAMCMD:FLUSH", p)) != std::string::npos; ++p) { ++n; } }
		if (marker && n != k + 1) { v.fail("marker", tag + ": the client waits after flush " + std::to_string(k + 1) + " but sees " + std::to_string(n) + " flush markers at the end; visible tail: " + esc(vis.size() > 200 ? vis.substr(vis.size() - 200) : vis)); return v; }
		if (sc.geti("ident") && marker) {
			for (size_t t = 0; t <= k; ++t) {
				for (auto& id : ids[t]) { if (vis.find(id) == std::string::npos) { v.fail("held-back", tag + ": the client waits after flush " + std::to_string(k + 1) + " but token " + id + " has not come out"); return v; } }
			}
		}
	}
	// the answers so far are those of the pipeline over the input so far
	if (!stops.empty() && marker) {
		size_t k = static_cast<size_t>(sc.geti("probe")) % stops.size();
		std::string d = in.substr(0, stops[k]);
		bool ok = true;
		for (auto& s : st) { RunSpec r = spec_of(s); r.in = d; auto o = run(r); v.absorb(o); ok &= o.ok(); d = o.out; }
		std::string vis = data.substr(0, at[k]);
		if (ok && d != vis) { v.fail("answer", tag + ": after flush " + std::to_string(k + 1) + " what has come out is not the answer to the input so far: " + diff_summary(vis, d)); return v; }
	}
	// the format on the pipes does not matter
	if (ignore) { return v; }
	std::vector<Stage> ref;
	for (auto s : work) { if (s.tool != "cg-conv") { s.in = s.out = "cg"; ref.push_back(s); } }
	std::string a = ser_doc(doc, Fmt::CG), b = data;
	if (ref.empty()) { ref.push_back({"cg-conv", "cg", "cg", "", {}, false}); }
	mark(ref);
	deps = enddeps;
	for (auto& s : ref) {
		RunSpec r = spec_of(s);
		r.in = a;
		auto o = run(r);
		v.absorb(o);
		if (!o.ok()) { v.fail("reference", "with CG on all pipes: " + describe(o)); return v; }
		a = o.out;
	}
	auto tocg = [&](std::string& x, const std::string& f) {
		RunSpec r = spec_of({"cg-conv", f, "cg", "", {}, deps});
		r.in = x;
		auto o = run(r);
		v.absorb(o);
		if (!o.ok()) { v.fail("unreadable", tag + ": the final output cannot be read: " + describe(o)); }
		x = o.out;
	};
	tocg(a, "cg");
	tocg(b, dst);
	if (v.violated) { return v; }
	auto ca = canon(a, lossy, deps), cb = canon(b, lossy, deps);
	stat("p12.compared", ca.size());
	if (ca != cb) {
		size_t i = 0;
		while (i < ca.size() && i < cb.size() && ca[i] == cb[i]) { ++i; }
		auto sh = [&](const std::vector<std::string>& c) { std::string s; for (size_t k = i < 2 ? 0 : i - 2; k < c.size() && k < i + 4; ++k) { s += " | " + esc(c[k].substr(0, 120)); } return s; };
		std::set<std::string> fs;
		for (auto& s : st) { fs.insert(s.in); fs.insert(s.out); }
		std::string f;
		for (auto& x : fs) { if (x != "cg") { f += (f.empty() ? "" : "+") + x; } }
		v.fail("format:" + f, tag + " differs from the same stages with CG on the pipes at item " + std::to_string(i) + ": expected" + sh(ca) + " but got" + sh(cb));
	}
	return v;
}
static Register r12({"P12", gen, exec});
} // namespace sim
