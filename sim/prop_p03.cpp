// P03: a flush separates requests: the answer to each request is what a freshly
// started tool answers to it.
#include "workload.hpp"
#include <algorithm>
namespace sim {
static Scenario gen(uint64_t seed, bool thorough) {
	Rng g(seed);
	Scenario sc;
	static const std::vector<std::string> tools = {"vislcg3", "vislcg3", "vislcg3", "vislcg3", "cg-conv", "cg-proc", "cg-proc", "cg-mwesplit"};
	std::string tool = g.pick(tools);
	sc.set("tool", tool);
	static const std::vector<std::string> I = {"cg", "cg", "cg", "jsonl", "apertium", "binary"}, O = {"cg", "cg", "cg", "jsonl", "apertium", "niceline", "plain", "fst"};
	std::string ifmt = g.pick(I), ofmt = g.pick(O);
	if (tool == "cg-mwesplit") { ifmt = "cg"; ofmt = "cg"; }
	if (tool == "cg-proc") {
		static const int fs[] = {0, 1, 1};
		int f = fs[g.below(3)];
		sc.set("pf", f);
		static const char* nm[] = {"cg", "apertium", "", "binary"};
		ifmt = ofmt = nm[f];
	}
	DocOpts d;
	bool bin = ifmt == "binary"; // always carries the numbers the tool handed out (known finding F10)
	if (tool == "vislcg3" || tool == "cg-proc") {
		GramOpts go = random_gram_opts(g);
		go.vars = g.chance(0.5);
		if (g.chance(0.3)) { go.max_rules = 16; }
		if (go.deps || go.rels) { go.cohorts = false; ofmt = tool == "vislcg3" ? "cg" : ofmt; }
		if (bin) { go.rels = false; }
		if (ofmt != "cg") { go.deps = go.rels = false; }
		d.deps = go.deps && g.chance(0.8);
		d.rels = go.rels && g.chance(0.8);
		d.vars = ifmt != "apertium" ? go.vars : go.vars && g.chance(0.5);
		for (auto& x : gen_grammar(g, go)) { if (x.s(0).compare(0, 12, "SWITCHPARENT") != 0) { sc.ops.push_back(x); } } // finding F11
	}
	else { d.vars = g.chance(0.3); }
	sc.set("ifmt", ifmt);
	sc.set("ofmt", ofmt);
	if (tool == "vislcg3") { for (auto& a : gen_cli(g)) { if (!sc.ops.empty() && sc.ops.back().kind == "arg" && a[0] != '-') { sc.ops.back().a.push_back(a); } else { sc.ops.push_back(Op("arg", a)); } } }
	for (auto& o : sc.ops) { if (o.kind == "arg" && o.s(0) == "--hard-limit" && o.i(1) >= 8 && o.i(1) <= 10) { o.a[1] = "7"; } } // so that local and spanning numbers can be told apart
	d.p_cmd = d.vars ? 0.15 : 0;
	if (g.chance(0.15) && ifmt != "apertium" && ifmt != "binary" && !d.deps) { d.ignore = true; d.p_cmd = 0.1; } // ignored dependency numbers would be taken for live ones
	d.p_weird = 0.05;
	d.p_sub = 0.05;
	d.p_text = g.chance(0.5) ? 0.15 : 0.02;
	d.p_delim = g.chance(0.3) ? 0.0 : 0.2;
	if (tool == "vislcg3" && d.deps && g.chance(0.25)) { sc.ops.push_back(Op("arg", "--dep-delimit", std::to_string(g.range(1, 8)))); }
	if (tool == "vislcg3" && d.vars && g.chance(0.2)) { // windows that end after the fact, and what then goes where
		d.p_soft = 0.3;
		d.p_delim = g.chance(0.5) ? 0.02 : 0.1;
		bool has = false;
		for (auto& o : sc.ops) { has = has || (o.kind == "arg" && o.s(0) == "--soft-limit"); }
		if (!has) { sc.ops.push_back(Op("arg", "--soft-limit", std::to_string(g.range(2, 4)))); }
	}
	int turns = static_cast<int>(g.range(2, thorough ? 9 : 5));
	d.rel_base = 100000; // out of reach of the numbers the tool hands out itself (known finding F10)
	for (int t = 0; t < turns; ++t) {
		d.first_id = 0;
		d.min_coh = g.chance(0.12) ? 0 : 1;
		d.max_coh = g.chance(0.2) ? 2 : (thorough ? 40 : 12);
		bool empty = g.chance(0.12); // a request without a single cohort still has to leave nothing behind
		if (empty) { if (g.chance(0.3)) { sc.ops.push_back(Op("t", "text " + std::to_string(t))); } }
		else { for (auto& x : gen_doc(g, d)) { sc.ops.push_back(x); } }
		// state left pending right before the flush
		if (d.vars && g.chance(empty ? 0.8 : 0.3)) { sc.ops.push_back(Op("k", "SETVAR:v" + std::to_string(g.below(4)))); }
		sc.ops.push_back(Op("k", "FLUSH"));
	}
	return sc;
}
// Replaces handed-out numbers by what they refer to: dependencies and relations become
// distances in cohorts, a cohort attached to itself has no dependency.
static std::string normalise_part(const std::string& s, long span) {
	auto L = split_lines(s);
	struct Ref { size_t line, from, to; long self, parent; size_t coh; };
	struct Id { size_t line, from, to; long id; size_t coh; bool target; };
	std::vector<Ref> deps;
	std::vector<Id> ids;
	size_t coh = 0;
	for (size_t i = 0; i < L.size(); ++i) {
		if (L[i].compare(0, 2, "\"<") == 0 || L[i].compare(0, 4, "; \"<") == 0) { ++coh; }
		if (L[i].empty() || (L[i][0] != '\t' && L[i].compare(0, 2, ";\t") != 0)) { continue; }
		for (size_t p = 0; (p = L[i].find(" #", p)) != std::string::npos; ++p) {
			char* e;
			const char* b = L[i].c_str() + p + 2;
			long a = strtol(b, &e, 10);
			if (e == b) { continue; }
			size_t skip = strncmp(e, "->", 2) == 0 ? 2 : strncmp(e, "\u2192", 3) == 0 ? 3 : 0;
			if (!skip) { continue; }
			const char* b2 = e + skip;
			long c = strtol(b2, &e, 10);
			if (e == b2 || (*e && *e != ' ')) { continue; }
			deps.push_back({i, p, static_cast<size_t>(e - L[i].c_str()), a, c, coh});
		}
		for (auto key : {" ID:", " R:"}) {
			for (size_t p = 0; (p = L[i].find(key, p)) != std::string::npos; ++p) {
				size_t e = L[i].find(' ', p + 1);
				if (e == std::string::npos) { e = L[i].size(); }
				size_t c = L[i].rfind(':', e - 1);
				if (c == std::string::npos || c < p) { continue; }
				char* q;
				long n = strtol(L[i].c_str() + c + 1, &q, 10);
				if (static_cast<size_t>(q - L[i].c_str()) != e) { continue; }
				ids.push_back({i, c + 1, e, n, coh, key[1] == 'R'});
			}
		}
	}
	std::map<long, size_t> spanned;
	for (auto& d : deps) { if (d.self >= span) { spanned[d.self] = d.coh; } }
	struct Ed { size_t line, from, to; std::string txt; };
	std::vector<Ed> eds;
	// a self number that does not increase opens a new numbering scope
	size_t i = 0;
	while (i < deps.size()) {
		std::map<long, size_t> at;
		size_t j = i;
		long last = -1;
		size_t lastcoh = 0;
		for (; j < deps.size(); ++j) {
			if (deps[j].self >= span) { continue; }
			if (deps[j].coh != lastcoh && deps[j].self <= last) { break; }
			last = deps[j].self;
			lastcoh = deps[j].coh;
			at[deps[j].self] = deps[j].coh;
		}
		for (size_t k = i; k < j; ++k) {
			std::string t;
			if (deps[k].parent == deps[k].self) { t = ""; }
			else if (deps[k].parent == 0 || (deps[k].self >= span && deps[k].parent % span == 0)) { t = " #root"; }
			else if (deps[k].self >= span) {
				auto it = spanned.find(deps[k].parent);
				t = it == spanned.end() ? " #?" : " #" + std::to_string(static_cast<long>(it->second) - static_cast<long>(deps[k].coh));
			}
			else {
				auto it = at.find(deps[k].parent);
				t = it == at.end() ? " #?" : " #" + std::to_string(static_cast<long>(it->second) - static_cast<long>(deps[k].coh));
			}
			eds.push_back({deps[k].line, deps[k].from, deps[k].to, t});
		}
		i = j;
	}
	// identifiers are never reused within one process, but a fresh one starts over:
	// a target means the nearest cohort that carries the number
	for (auto& x : ids) {
		std::string t = "self";
		if (x.target) {
			long best = 1000000;
			for (auto& y : ids) { if (!y.target && y.id == x.id) { long dd = static_cast<long>(y.coh) - static_cast<long>(x.coh); if (std::abs(dd) < std::abs(best)) { best = dd; } } }
			t = best == 1000000 ? "?" : std::to_string(best);
		}
		eds.push_back({x.line, x.from, x.to, t});
	}
	std::sort(eds.begin(), eds.end(), [](auto& a, auto& b) { return a.line != b.line ? a.line < b.line : a.from > b.from; });
	for (auto& e : eds) { L[e.line].replace(e.from, e.to - e.from, e.txt); }
	// readings that differ in nothing but their mapping come in the order of a hash over
	// their tags, which takes in the numbers of their relations
	if (!ids.empty()) {
		for (size_t x = 0; x < L.size();) {
			auto rd = [&](size_t y) { return y < L.size() && (L[y].compare(0, 1, "\t") == 0 || L[y].compare(0, 2, ";\t") == 0); };
			if (!rd(x)) { ++x; continue; }
			size_t y = x;
			while (rd(y)) { ++y; }
			std::sort(L.begin() + static_cast<long>(x), L.begin() + static_cast<long>(y));
			x = y;
		}
	}
	std::string r;
	for (auto& l : L) { r += l + "\n"; }
	return r;
}
// Numbers are local to what was answered before the next flush marker.
// Spanning dependencies are numbered <window><cohort>; `span` is where that begins.
std::string normalise_ids(const std::string& s, long span) {
	std::string r, part;
	for (auto& l : split_lines(s)) {
		if (l == "<STREAMCMD:FLUSH>") { r += normalise_part(part, span) + l + "\n"; part.clear(); }
		else { part += l + "\n"; }
	}
	return r + normalise_part(part, span);
}
static Verdict exec(const Scenario& sc) {
	Verdict v;
	auto w = build_stream(sc);
	if (!w.ok || w.spec.in.size() < 2) { v.trivial = true; return v; }
	std::string ifmt = sc.gets("ifmt", "cg"), ofmt = sc.gets("ofmt", "cg"), tool = w.spec.tool;
	std::string tag = tool + ":" + ifmt + ">" + ofmt;
	auto all = run(w.spec);
	v.absorb(all);
	if (!all.ok()) { v.trivial = true; stat("p03.unfinished." + all.verdict()); return v; }
	// a binary stream is cut at its flush packets, as no other form says the same
	std::vector<std::string> packets;
	if (ifmt == "binary") {
		const std::string& b = w.spec.in;
		size_t p = 8, from = 8;
		while (p < b.size()) {
			uint32_t n = 0;
			uint16_t m = 0;
			char t = b[p];
			if (t == 1 && p + 5 <= b.size()) { memcpy(&n, b.data() + p + 1, 4); p += 5 + static_cast<size_t>(n); }
			else if (t == 3 && p + 3 <= b.size()) { memcpy(&m, b.data() + p + 1, 2); p += 3 + static_cast<size_t>(m); }
			else if (t == 2) { p += 2; }
			else { break; }
			if (t == 2 && b[p - 1] == 1) { packets.push_back(b.substr(0, 8) + b.substr(from, p - from)); from = p; }
		}
		if (p != b.size()) { v.trivial = true; stat("p03.binary_unparsed"); return v; }
		if (from < p) { packets.push_back(b.substr(0, 8) + b.substr(from, p - from)); }
	}
	// once a dependency spans windows the numbering scheme changes in mid-stream
	auto mixed = [](const RunOut& r) { return r.err.find("spans the window boundaries") != std::string::npos; };
	if (ofmt == "cg" && mixed(all)) { v.trivial = true; stat("p03.mixed_numbering"); return v; }
	std::vector<std::vector<Op>> reqs(1);
	for (auto& o : sc.ops) {
		if (!is_doc_op(o)) { continue; }
		reqs.back().push_back(o);
		if (o.kind == "k" && o.s(0) == "FLUSH") { reqs.emplace_back(); }
	}
	if (reqs.back().empty()) { reqs.pop_back(); }
	if (ifmt == "binary") { reqs.resize(packets.size()); }
	if (reqs.size() < 2) { v.trivial = true; return v; }
	std::string want;
	size_t n = 0;
	std::vector<size_t> ends;
	for (auto& r : reqs) {
		bool ok = true;
		RunSpec s = w.spec;
		s.in = ifmt == "binary" ? packets[n] : stream_bytes(sc, r, ok);
		if (!ok) { v.trivial = true; return v; }
		auto f = run(s);
		v.absorb(f);
		if (!f.ok()) {
			if (f.kind == Kind::Hang) { v.trivial = true; return v; }
			v.fail("alone:" + tag, "request " + std::to_string(n + 1) + " alone ends with " + describe(f) + " although the whole session went well");
			return v;
		}
		std::string o = f.out;
		if (ofmt == "binary" && n) { o = o.size() >= 8 ? o.substr(8) : ""; }
		want += o;
		ends.push_back(want.size());
		++n;
	}
	std::string a = all.out, b = want;
	if (ofmt == "cg") { 
		long span = 1000;
		for (size_t i = 0; i + 1 < w.spec.argv.size(); ++i) { if (w.spec.argv[i] == "--hard-limit") { span = std::stol(w.spec.argv[i + 1]) >= 10 ? 100 : 10; } }
		a = normalise_ids(a, span);
		b = normalise_ids(b, span);
	}
	stat("p03.requests", n);
	if (a != b) {
		size_t d = 0;
		while (d < all.out.size() && d < want.size() && all.out[d] == want[d]) { ++d; }
		size_t k = 0;
		while (k < ends.size() && ends[k] <= d) { ++k; }
		v.fail("leak:" + tag, "request " + std::to_string(k + 1) + " of " + std::to_string(n) + " is answered differently in a session (A) than by a fresh tool (B): " + diff_summary(a, b));
	}
	return v;
}
static Register r3({"P03", gen, exec});
} // namespace sim
