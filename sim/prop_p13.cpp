// P13: profiling data is conserved.
#include "workload.hpp"
#include <algorithm>
#include <filesystem>
#include <sqlite3.h>
namespace sim {
namespace {
const std::vector<std::string> CTX = {"-1 N", "1 V", "1 (D)", "-1 (A Sg)", "*1 V BARRIER N", "*-1 (\"the\")", "NOT 1 N", "0 (Sg)", "1C N", "-2 D", "1 N LINK 1 V", "-1 D LINK 0 (Sg)", "*1 N LINK NOT 1 V", "1 V LINK 1 N LINK 1 D", "1* (Pl)", "(1 V) OR (-1 V)", "(1 N LINK 1 V) OR (-1 D)", "T:tm", "1 (<W>20>)", "1f N", "-1 (<W=3>)", "*1f V", "1 (<W>20>) LINK 1 N", "0 N", "[N, D]", "-1 (*)", "1f (<W>20>)", "*1f (<W=3>) LINK 1 N", "NOT 1 (\"dog\")"};

struct Ent { int64_t type = 0, id = 0, grammar = 0, b = 0, e = 0, match = 0, fail = 0, ex = 0; };
struct Db {
	std::string why; // not empty: cannot be read
	std::map<int64_t, std::string> strings;
	std::map<int64_t, int64_t> grammars;
	std::map<std::pair<int64_t, int64_t>, Ent> entries;
	std::map<std::pair<int64_t, int64_t>, int64_t> rc;
};
std::string path_of(const std::string& f) { return scratch_dir() + "/" + f; }
Db load(const std::string& f) {
	Db d;
	sqlite3* db = nullptr;
	if (sqlite3_open_v2(path_of(f).c_str(), &db, SQLITE_OPEN_READONLY, nullptr) != SQLITE_OK) { d.why = "cannot open"; sqlite3_close(db); return d; }
	auto q = [&](const char* sql, auto fn) {
		if (!d.why.empty()) { return; }
		sqlite3_stmt* s = nullptr;
		if (sqlite3_prepare_v2(db, sql, -1, &s, nullptr) != SQLITE_OK) { d.why = sqlite3_errmsg(db); return; }
		int r;
		while ((r = sqlite3_step(s)) == SQLITE_ROW) { fn(s); }
		if (r != SQLITE_DONE) { d.why = sqlite3_errmsg(db); }
		sqlite3_finalize(s);
	};
	auto I = [](sqlite3_stmt* s, int n) { return sqlite3_column_int64(s, n); };
	q("SELECT key, value FROM strings", [&](sqlite3_stmt* s) {
		auto p = sqlite3_column_text(s, 1);
		d.strings[I(s, 0)] = std::string(reinterpret_cast<const char*>(p), static_cast<size_t>(sqlite3_column_bytes(s, 1)));
	});
	q("SELECT fname, grammar FROM grammars", [&](sqlite3_stmt* s) { d.grammars[I(s, 0)] = I(s, 1); });
	q("SELECT type, id, grammar, b, e, num_match, num_fail, example_window FROM entries", [&](sqlite3_stmt* s) {
		Ent e{I(s, 0), I(s, 1), I(s, 2), I(s, 3), I(s, 4), I(s, 5), I(s, 6), I(s, 7)};
		d.entries[{e.type, e.id}] = e;
	});
	q("SELECT rule, context, num_match FROM rule_contexts", [&](sqlite3_stmt* s) { d.rc[{I(s, 0), I(s, 1)}] = I(s, 2); });
	sqlite3_close(db);
	return d;
}
// UTF-16 slice of UTF-8 text
std::string slice16(const std::string& t, int64_t b, int64_t e) {
	std::string r;
	int64_t u = 0;
	for (size_t i = 0; i < t.size();) {
		unsigned char c = static_cast<unsigned char>(t[i]);
		size_t n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
		if (u >= b && u < e) { r.append(t, i, n); }
		u += n == 4 ? 2 : 1;
		i += n;
	}
	return e > u || b > e ? "<out of the grammar>" : r;
}
std::string squeeze(const std::string& s) {
	std::string r;
	for (char c : s) { if (c == ' ' || c == '\n' || c == '\t') { if (!r.empty() && r.back() != ' ') { r += ' '; } } else { r += c; } }
	while (!r.empty() && (r.back() == ' ' || r.back() == ';')) { r.pop_back(); }
	return r;
}
std::string key_name(const std::pair<int64_t, int64_t>& k) { return (k.first ? "context " : "rule ") + std::to_string(k.second); }

// a database must say the same as another one (examples: any of the allowed ones)
std::string differs(const Db& want, const Db& got) {
	if (!got.why.empty()) { return "cannot be read: " + got.why; }
	auto w0 = want.strings.find(0), g0 = got.strings.find(0);
	if (w0 == want.strings.end() || g0 == got.strings.end() || w0->second != g0->second) { return "another grammar tree"; }
	auto gram = [](const Db& d) { std::map<std::string, std::string> m; for (auto& x : d.grammars) { auto f = d.strings.find(x.first), t = d.strings.find(x.second); m[f == d.strings.end() ? "?" : f->second] = t == d.strings.end() ? "?" : t->second; } return m; };
	if (gram(want) != gram(got)) { return "other grammar texts"; }
	for (auto& x : want.entries) {
		auto it = got.entries.find(x.first);
		if (it == got.entries.end()) { return key_name(x.first) + " is missing"; }
		auto& a = x.second;
		auto& b = it->second;
		if (a.match != b.match || a.fail != b.fail) { return key_name(x.first) + ": " + std::to_string(b.match) + " hits and " + std::to_string(b.fail) + " misses, not " + std::to_string(a.match) + " and " + std::to_string(a.fail); }
		if (a.b != b.b || a.e != b.e) { return key_name(x.first) + " is at another place"; }
		auto ga = want.strings.find(a.grammar), gb = got.strings.find(b.grammar);
		if ((ga == want.strings.end()) != (gb == got.strings.end()) || (ga != want.strings.end() && ga->second != gb->second)) { return key_name(x.first) + " is in another grammar"; }
	}
	for (auto& x : got.entries) { if (!want.entries.count(x.first)) { return key_name(x.first) + " came out of nowhere"; } }
	if (want.rc != got.rc) {
		for (auto& x : want.rc) { auto it = got.rc.find(x.first); if (it == got.rc.end() || it->second != x.second) { return "context " + std::to_string(x.first.second) + " of rule " + std::to_string(x.first.first) + ": " + (it == got.rc.end() ? std::string("none") : std::to_string(it->second)) + ", not " + std::to_string(x.second); } }
		return "rule-context hits came out of nowhere";
	}
	return "";
}
std::string example(const Db& d, const Ent& e) { auto it = d.strings.find(e.ex); return it == d.strings.end() ? "<missing string>" : it->second; }
} // namespace

static Scenario gen(uint64_t seed, bool thorough) {
	Rng g(seed);
	Scenario sc;
	static const std::vector<std::string> I = {"cg", "cg", "cg", "jsonl", "apertium", "niceline"}, O = {"cg", "cg", "cg", "jsonl", "apertium", "niceline", "plain", "fst", "binary"};
	sc.set("ifmt", g.pick(I));
	sc.set("ofmt", g.pick(O));
	bool rich = g.chance(0.3), single = !rich && g.chance(0.5);
	sc.set("rich", rich);
	sc.set("single", single);
	auto line = [&](const std::string& s, const char* k = "g") { sc.ops.push_back(Op(k, s)); };
	if (rich) { for (auto& x : gen_rich(g, thorough ? 16 : 8)) { sc.ops.push_back(x); } }
	else {
		bool inc = g.chance(0.35), pre = g.chance(0.3);
		line("DELIMITERS = \"<$.>\" \"<.>\" ;");
		if (inc && pre) { line("INCLUDE inc.cg3 ;"); }
		const char* k = inc && pre ? "gi" : "g";
		line("LIST N = N ; LIST V = V ; LIST A = A ; LIST D = D ; LIST W = \"<.*é.*>\"r ;", k);
		line("TEMPLATE tm = 1 N LINK 1 A ;", k);
		if (inc && !pre) { line("SECTION"); line("INCLUDE inc.cg3 ;"); }
		bool sec = false;
		int n = static_cast<int>(g.range(1, thorough ? 14 : 8));
		for (int i = 0; i < n; ++i) {
			bool here = !inc || g.chance(0.5);
			if (here && (!sec || g.chance(0.1))) { line(sec || !g.chance(0.3) ? "SECTION" : "BEFORE-SECTIONS"); sec = true; }
			static const std::vector<std::string> T = {"N", "V", "A", "D", "(*)", "(N Sg)", "(\"the\")", "(Pl)", "(<W>20>)", "W", "(\"<.*o.*>\"r)"};
			std::string id = std::to_string(i), t = g.pick(T), head;
			if (g.chance(0.1)) { line("# é𝄞 comment " + id, here ? "g" : "gi"); }
			std::string nm = g.chance(0.2) ? ":nä" + id : "", kp = " KEEPORDER ";
			switch (g.below(11)) {
			case 0: case 1: head = "SELECT" + nm + kp + t; break;
			case 2: head = "REMOVE" + nm + kp + t; break;
			case 3: case 4: head = "ADD" + nm + kp + "(@x" + id + ") " + t; break;
			case 5: head = "MAP" + nm + kp + "(@m" + id + ") " + t; break;
			case 6: head = "SUBSTITUTE" + nm + kp + "(Sg) (q" + id + ") " + t; break;
			case 7: head = "SETVARIABLE" + nm + kp + "(v) (" + id + ") " + t; break;
			case 8: head = "REPLACE" + nm + kp + "(\"rp\" R" + id + ") " + t; break;
			case 9: head = "IFF" + nm + kp + t; break;
			case 10: head = "REMVARIABLE" + nm + kp + "(v) " + t; break;
			}
			Op o(here ? "gr" : "gir", head);
			int nc = static_cast<int>(g.below(4));
			std::set<std::string> used;
			for (int c = 0; c < nc; ++c) { auto& x = g.pick(CTX); if (used.insert(x).second) { o.a.push_back(x); } }
			sc.ops.push_back(o);
		}
	}
	if (g.chance(0.3)) { sc.ops.push_back(Op("arg", "-t")); }
	if (g.chance(0.2)) { sc.ops.push_back(Op("arg", "--num-windows", g.range(0, 4))); }
	if (g.chance(0.15)) { sc.ops.push_back(Op("arg", "--soft-limit", g.range(2, 8))); }
	if (g.chance(0.1)) { sc.ops.push_back(Op("arg", "--max-runs", g.range(1, 3))); }
	if (g.chance(0.1)) { sc.ops.push_back(Op("arg", "-d")); }
	DocOpts d;
	d.min_coh = 1;
	d.max_coh = thorough ? 30 : 12;
	d.p_sub = 0.05;
	d.vars = g.chance(0.3) && (sc.gets("ofmt") == "cg" || (sc.gets("ifmt") != "apertium" && sc.gets("ofmt") != "binary"));
	d.p_cmd = d.vars ? 0.08 : 0;
	int segs = sc.gets("ifmt") == "niceline" ? 1 : static_cast<int>(g.range(1, thorough ? 7 : 4));
	for (int s = 0; s < segs; ++s) {
		if (s) { sc.ops.push_back(Op("cut")); }
		for (auto& x : gen_doc(g, d)) {
			Coh c;
			if (single && op_coh(x, c)) {
				if (c.rs.empty()) { c.rs.push_back(Rd{"x", {"N", "Sg"}, {}}); }
				c.rs.resize(1);
				c.rs[0].subs.clear();
				sc.ops.push_back(coh_op(c));
			}
			else { sc.ops.push_back(x); }
		}
	}
	int nm = static_cast<int>(g.range(1, 3));
	for (int i = 0; i < nm; ++i) { sc.ops.push_back(Op("merge", g.below(1000000))); }
	if (g.chance(0.3)) { sc.ops.push_back(Op("alien")); }
	if (g.chance(0.35)) { sc.ops.push_back(Op("annotate")); }
	if (g.chance(0.1)) { sc.ops.push_back(Op("quit")); }
	int nf = g.chance(0.6) ? static_cast<int>(g.range(1, thorough ? 10 : 4)) : 0;
	static const std::vector<std::string> TG = {"run", "merge", "merge", "annotate"}, FK = {"read", "read", "write", "write", "torn", "kill", "kill", "open", "cut"};
	for (int i = 0; i < nf; ++i) { sc.ops.push_back(Op("fault", g.pick(TG), g.pick(FK), g.chance(0.5) ? g.below(12) : g.below(60), g.below(2))); }
	static const std::vector<std::string> PK = {"eio", "enospc", "short", "eintr", "kill", "folder", "page"};
	if (g.chance(0.2)) { for (int i = static_cast<int>(g.range(1, 3)); i > 0; --i) { sc.ops.push_back(Op("pages", g.pick(PK), g.below(1000000), g.chance(0.3) ? 0 : g.below(100000))); } }
	return sc;
}

static Verdict exec(const Scenario& sc) {
	Verdict v;
	namespace fs = std::filesystem;
	for (auto& e : fs::directory_iterator(scratch_dir())) { auto n = e.path().filename().string(); if (n.compare(0, 3, "db_") == 0 || n.compare(0, 3, "ann") == 0) { fs::remove_all(e.path()); } }
	// the grammar
	std::string text, inc;
	struct Rl { std::string text; std::vector<std::string> ctx; bool inc; size_t line; };
	std::vector<Rl> rules;
	size_t ln = 0, lni = 0;
	for (auto& o : sc.ops) {
		if (o.kind == "g") { text += o.s(0) + "\n"; ++ln; }
		else if (o.kind == "gi") { inc += o.s(0) + "\n"; ++lni; }
		else if (o.kind == "gr" || o.kind == "gir") {
			bool in = o.kind == "gir";
			(in ? lni : ln)++;
			Rl r{o.s(0), {}, in, in ? lni : ln};
			for (size_t i = 1; i < o.a.size(); ++i) { r.text += " (" + o.s(i) + ")"; r.ctx.push_back(o.s(i)); }
			(in ? inc : text) += r.text + " ;\n";
			rules.push_back(r);
		}
	}
	fs_put("g.cg3", text);
	if (inc.empty()) { inc = "LIST Unused = unused ;\n"; }
	fs_put("inc.cg3", inc);
	Fmt f = fmt_from(sc.gets("ifmt", "cg"));
	std::string of = sc.gets("ofmt", "cg");
	std::vector<std::vector<Op>> segs(1);
	std::vector<std::string> args;
	for (auto& o : sc.ops) {
		if (o.kind == "cut") { segs.emplace_back(); }
		else if (is_doc_op(o)) { segs.back().push_back(o); }
		else if (o.kind == "arg") { for (auto& a : o.a) { args.push_back(a); } }
	}
	auto bytes = [&](size_t a, size_t b) {
		std::vector<Op> all;
		for (size_t i = a; i < b; ++i) { for (auto& o : segs[i]) { all.push_back(o); } if (i + 1 < b) { all.push_back(Op("k", "FLUSH")); } }
		return ser_doc(all, f);
	};
	auto spec = [&](const std::string& in, const std::string& db) {
		RunSpec s;
		s.tool = "vislcg3";
		s.argv = {"-g", "g.cg3", fmt_in_flag(f)};
		if (of != "cg") { s.argv.push_back(of == "binary" ? "--out-binary" : std::string("--out-") + of); }
		for (auto& a : args) { s.argv.push_back(a); }
		if (!db.empty()) { s.argv.push_back("--profile"); s.argv.push_back(db); }
		s.in = in;
		return s;
	};
	size_t n = segs.size();
	auto whole = bytes(0, n);
	// profiling must not disturb the run it counts
	auto plain = run(spec(whole, ""));
	v.absorb(plain);
	if (!plain.ok()) { v.trivial = true; stat(crashed(plain) ? "p13.plain_crash" : "p13.rejected"); if (getenv("CG3SIM_SHOW")) { fprintf(stderr, "REJ %llu %s %s\n", (unsigned long long)sc.seed, plain.verdict().c_str(), esc(plain.err.substr(0, 600)).c_str()); } return v; }
	auto pr = run(spec(whole, "db_whole"));
	v.absorb(pr);
	if (pr.verdict() != plain.verdict() || pr.out != plain.out) { v.fail("disturbed", "with --profile: " + describe(pr) + " " + diff_summary(plain.out, pr.out)); return v; }
	Db W = load("db_whole");
	if (!W.why.empty()) { v.fail("unreadable", "the profile cannot be read: " + W.why); return v; }
	auto dbg = spec(whole, "db_debug");
	for (auto& a : dbg.argv) { if (a.compare(0, 6, "--out-") == 0) { a = "--out-cg"; } } // its reports cannot hold what the other formats contain
	dbg.argv.push_back("--debug-rules");
	dbg.argv.push_back("1-" + std::to_string(std::max(ln, lni) + 2));
	dbg.step_limit = plain.steps * 200 + 60000000ull; // it prints the windows for every try of a rule
	auto dr = run(dbg);
	v.absorb(dr);
	Db D = load("db_debug");
	if (dr.verdict() != plain.verdict() || (of == "cg" && dr.out != plain.out)) { v.fail("disturbed-debug", "with --profile and --debug-rules: " + describe(dr) + " " + diff_summary(plain.out, dr.out)); return v; }
	auto df = differs(W, D);
	if (!df.empty()) { v.fail("repeat", "the same run profiled twice: " + df); return v; }
	if (dr.err.size() >= (2u << 20)) { stat("p13.debug_cut"); return v; } // not all of the reports were kept
	// what the run did, as it reports itself
	std::map<int64_t, std::array<int64_t, 3>> blocks; // line -> match, context fail, target fail
	for (auto& l : split_lines(dr.err)) {
		long L;
		char a[32], b[32];
		if (sscanf(l.c_str(), "# ===== BEGIN RULE %ld %31s %31s =====", &L, a, b) != 3) { continue; }
		auto& x = blocks[L];
		bool t = !strcmp(a, "TARGET-MATCH"), c = !strcmp(b, "CONTEXT-MATCH");
		++x[t && c ? 0 : t ? 1 : 2];
	}
	bool rich = sc.geti("rich"), single = sc.geti("single");
	std::string main_text, inc_text;
	int64_t gmain = 0, ginc = 0;
	for (auto& x : W.grammars) {
		auto nm = W.strings[x.first];
		if (nm.size() >= 7 && nm.substr(nm.size() - 7) == "inc.cg3") { inc_text = W.strings[x.second]; ginc = x.second; }
		else { main_text = W.strings[x.second]; gmain = x.second; }
	}
	if (main_text != text) { v.fail("grammar-text", "the profile holds another grammar than was run: " + diff_summary(text, main_text)); }
	if (ginc && inc_text != inc) { v.fail("grammar-text", "the profile holds another included grammar than was run: " + diff_summary(inc, inc_text)); }
	// every count belongs to something in the grammar
	std::map<int64_t, int64_t> rcsum;
	for (auto& x : W.rc) {
		rcsum[x.first.second] += x.second;
		if (!W.entries.count({1, x.first.second})) { v.fail("context-lost", "hits are recorded for rule " + std::to_string(x.first.first) + " and a context that is not in the profile"); }
		if (!W.entries.count({0, x.first.first})) { v.fail("rule-lost", "hits are recorded for a context and a rule that is not in the profile"); }
	}
	std::map<int64_t, int64_t> lmatch, lfail; // line (+ 1000000 in the included file) -> counts of the rules there
	for (auto& x : W.entries) {
		auto& e = x.second;
		if (e.grammar != gmain && e.grammar != ginc) { v.fail("no-grammar", key_name(x.first) + " belongs to no grammar"); continue; }
		auto& t = e.grammar == ginc && ginc ? inc_text : main_text;
		auto sl = slice16(t, e.b, e.e);
		if (e.b >= e.e || sl == "<out of the grammar>") { v.fail("no-place", key_name(x.first) + " lies outside of the grammar"); continue; }
		if (e.type == 1 && e.match != rcsum[x.first.second]) { v.fail("context-sum", "context '" + esc(sl) + "' was hit " + std::to_string(e.match) + " times, but " + std::to_string(rcsum[x.first.second]) + " times by rules"); }
		if (e.match && !e.ex) { v.fail("no-example", key_name(x.first) + " was hit, but has no example"); }
		if (e.ex && !W.strings.count(e.ex)) { v.fail("no-example", key_name(x.first) + ": its example is missing"); }
		if (e.ex && example(W, e).compare(0, 18, "# PREVIOUS WINDOWS") != 0) { v.fail("wrong-example", key_name(x.first) + ": its example is " + esc(example(W, e).substr(0, 100))); }
		if (e.type == 0) {
			auto p = slice16(t, 0, e.b);
			int64_t L = 1 + std::count(p.begin(), p.end(), '\n');
			lmatch[L] += e.match;
			lfail[L] += e.fail;
		}
	}
	bool compared = false;
	for (auto& x : blocks) {
		if (x.second[0] != lmatch[x.first]) { v.fail("rule-hits", "line " + std::to_string(x.first) + ": the profile has " + std::to_string(lmatch[x.first]) + " hits, the run reports " + std::to_string(x.second[0])); }
		if (x.second[2] != lfail[x.first]) { v.fail("rule-misses", "line " + std::to_string(x.first) + ": the profile has " + std::to_string(lfail[x.first]) + " misses, the run reports " + std::to_string(x.second[2])); }
		compared = true;
	}
	for (auto& x : lmatch) { if (x.second && !blocks.count(x.first)) { v.fail("rule-hits", "line " + std::to_string(x.first) + ": the profile has hits, the run reports none"); } }
	if (compared) { stat("p13.debug_compared"); }
	if (!rich) {
		// the rules and contexts, and only they, are in the profile, in their places
		std::map<std::string, std::vector<int64_t>> by; // "m|i" + text -> ids
		std::map<std::string, int64_t> ctx;
		for (auto& x : W.entries) {
			bool in = ginc && x.second.grammar == ginc;
			auto sl = squeeze(slice16(in ? inc_text : main_text, x.second.b, x.second.e));
			if (x.second.type == 0) { by[(in ? "i" : "m") + sl].push_back(x.first.second); }
			else { if (ctx.count(sl) && sl.find("1f") == std::string::npos) { v.fail("context-twice", "context '" + esc(sl) + "' is in the profile twice"); } ctx[sl] = x.first.second; }
		}
		std::map<int64_t, std::array<int64_t, 2>> cm; // context -> expected match, fail
		std::map<std::pair<int64_t, int64_t>, int64_t> rcm;
		bool exact = single && inc == "LIST Unused = unused ;\n", known = true;
		for (auto& r : rules) {
			auto& ids = by[(r.inc ? "i" : "m") + squeeze(r.text)];
			if (ids.empty()) { v.fail("rule-missing", "rule '" + esc(r.text) + "' is not in the profile"); known = false; continue; }
			int64_t id = ids.front();
			ids.erase(ids.begin());
			auto& e = W.entries[{0, id}];
			int64_t prev = -1, C = 0;
			if (exact) { auto it = blocks.find(static_cast<int64_t>(r.line)); C = it == blocks.end() ? 0 : it->second[0] + it->second[1]; prev = C; }
			for (size_t k = 0; k < r.ctx.size(); ++k) {
				auto it = ctx.find(squeeze(r.ctx[k]));
				if (it == ctx.end()) { v.fail("context-missing", "context '" + esc(r.ctx[k]) + "' of rule '" + esc(r.text) + "' is not in the profile"); known = false; continue; }
				auto h = W.rc.find({id, it->second});
				int64_t m = h == W.rc.end() ? 0 : h->second;
				bool lastc = k + 1 == r.ctx.size();
				if (lastc && e.match && !m) { v.fail("context-hits", "rule '" + esc(r.text) + "' matched " + std::to_string(e.match) + " times, its last context never"); }
				if (lastc && m > e.match) { v.fail("context-hits", "rule '" + esc(r.text) + "' matched " + std::to_string(e.match) + " times, its last context " + std::to_string(m)); }
				if (prev >= 0 && m > prev) { v.fail("context-order", "rule '" + esc(r.text) + "': context '" + esc(r.ctx[k]) + "' matched " + std::to_string(m) + " times of " + std::to_string(prev)); }
				if (single && lastc && m != e.match) { v.fail("context-hits", "rule '" + esc(r.text) + "' matched " + std::to_string(e.match) + " times, its last context " + std::to_string(m)); }
				if (exact) { cm[it->second][0] += m; cm[it->second][1] += prev - m; }
				prev = m;
			}
		}
		for (auto& x : by) { if (!x.second.empty()) { v.fail("rule-extra", "the profile has a rule '" + esc(x.first) + "' that the grammar does not have"); } }
		if (exact && known) {
			for (auto& x : cm) {
				auto& e = W.entries[{1, x.first}];
				if (e.match != x.second[0] || e.fail != x.second[1]) { v.fail("context-misses", "context '" + esc(slice16(main_text, e.b, e.e)) + "': " + std::to_string(e.match) + " hits and " + std::to_string(e.fail) + " misses, but its rules came to it with " + std::to_string(x.second[0]) + " and " + std::to_string(x.second[1])); }
			}
			stat("p13.exact");
		}
	}
	if (v.violated) { return v; }
	for (auto& o : sc.ops) {
		if (o.kind == "quit") { // what was done before the stream said stop is counted
			if (f != Fmt::CG || n < 2) { continue; }
			auto s = spec(bytes(0, 1) + "\n<STREAMCMD:FLUSH>\n\n<STREAMCMD:EXIT>\n\n" + bytes(1, n), "db_quit");
			auto r = run(s);
			v.absorb(r);
			run(spec(bytes(0, 1) + "\n<STREAMCMD:FLUSH>\n", "db_first"));
			auto d2 = differs(load("db_first"), load("db_quit"));
			if (!r.ok()) { v.fail("exit-status", describe(r)); }
			else if (!d2.empty()) { v.fail("exit", "profile of a run ended by EXIT: " + d2); }
			stat("p13.exit");
		}
	}
	// shards
	Rng g(sc.seed);
	std::vector<Db> S;
	bool sane = true;
	for (size_t i = 0; i < n; ++i) {
		auto s = spec(bytes(i, i + 1), "db_s" + std::to_string(i));
		auto r = run(s);
		v.absorb(r);
		if (!r.ok()) { sane = false; stat("p13.shard_failed"); break; }
		S.push_back(load("db_s" + std::to_string(i)));
	}
	if (!sane) { return v; }
	auto sum = [&](const Db& a, const Db& b) {
		Db r = a;
		for (auto& x : b.entries) { auto it = r.entries.find(x.first); if (it == r.entries.end()) { r.entries.insert(x); } else { it->second.match += x.second.match; it->second.fail += x.second.fail; } }
		for (auto& x : b.rc) { r.rc[x.first] += x.second; }
		return r;
	};
	Db T = S[0];
	for (size_t i = 1; i < n; ++i) { T = sum(T, S[i]); }
	if (!rich && n > 1) { // nothing in these grammars reaches over a flush
		auto d2 = differs(W, T);
		if (!d2.empty()) { v.fail("split", "the profiles of " + std::to_string(n) + " parts do not add up to that of the whole: " + d2); return v; }
		stat("p13.splits");
	}
	auto merge_spec = [&](const std::string& out, const std::vector<std::string>& ins) {
		RunSpec m;
		m.tool = "cg-merge-annotations";
		m.argv = {out};
		for (auto& x : ins) { m.argv.push_back(x); }
		return m;
	};
	auto examples_ok = [&](const Db& m) {
		for (auto& x : m.entries) {
			bool any = false, same = false;
			for (auto& s : S) { auto it = s.entries.find(x.first); if (it == s.entries.end() || !it->second.ex) { continue; } any = true; if (x.second.ex && example(m, x.second) == example(s, it->second)) { same = true; } }
			if (any && !same) { return key_name(x.first) + ": its example '" + esc(example(m, x.second).substr(0, 120)) + "' is none of the shards'"; }
			if (!any && x.second.ex) { return key_name(x.first) + " has an example that no shard had"; }
		}
		return std::string();
	};
	int mi = 0;
	for (auto& o : sc.ops) {
		if (o.kind != "merge") { continue; }
		Rng q(static_cast<uint64_t>(o.i(0)) + 1);
		std::vector<std::string> pool;
		for (size_t i = 0; i < n; ++i) { pool.push_back("db_s" + std::to_string(i)); }
		int k = 0;
		std::string how;
		do {
			std::vector<std::string> ins;
			size_t take = pool.size() == 1 ? 1 : static_cast<size_t>(q.range(2, static_cast<int64_t>(pool.size())));
			for (size_t i = 0; i < take; ++i) { auto at = q.below(pool.size()); ins.push_back(pool[at]); pool.erase(pool.begin() + static_cast<long>(at)); }
			std::string out = q.chance(0.2) ? ins[q.below(ins.size())] : "db_m" + std::to_string(mi) + "_" + std::to_string(k++);
			bool inplace = out.compare(0, 4, "db_s") == 0;
			if (inplace) { out = "db_m" + std::to_string(mi) + "_" + std::to_string(k++); fs::copy_file(path_of(ins[0]), path_of(out), fs::copy_options::overwrite_existing); ins[0] = out; } // the result replaces one of its inputs
			how += out + "=(" + join(ins) + ") ";
			auto r = run(merge_spec(out, ins));
			v.absorb(r);
			if (!r.ok()) { v.fail("merge-failed", how + describe(r)); return v; }
			pool.push_back(out);
		} while (pool.size() > 1);
		Db M = load(pool[0]);
		auto d2 = differs(T, M);
		if (d2.empty()) { d2 = examples_ok(M); }
		if (!d2.empty()) { v.fail("merge", how + "does not hold the sum of its parts: " + d2); return v; }
		stat("p13.merges");
		++mi;
	}
	// counts of a page against the database
	auto read_file = [&](const std::string& p, std::string& d) { return fs_get(p, d); };
	for (auto& o : sc.ops) {
		if (o.kind == "alien") {
			fs_put("g2.cg3", text + "LIST Other = other ;\nSECTION\nADD (@other) Other ;\n");
			auto s = spec(bytes(0, 1), "db_alien");
			s.argv[1] = "g2.cg3";
			auto r = run(s);
			v.absorb(r);
			if (!r.ok()) { continue; }
			auto m = run(merge_spec("db_mix", g.chance(0.5) ? std::vector<std::string>{"db_s0", "db_alien"} : std::vector<std::string>{"db_alien", "db_s0"}));
			v.absorb(m);
			if (m.ok() || fs::exists(path_of("db_mix"))) { v.fail("alien", "profiles of two grammars were merged: " + describe(m)); }
			if (crashed(m)) { v.fail("alien-crash", describe(m)); }
			stat("p13.aliens");
		}
		else if (o.kind == "annotate") {
			RunSpec a;
			a.tool = "cg-annotate";
			a.argv = {"db_whole", "ann"};
			auto r = run(a);
			v.absorb(r);
			if (!r.ok()) { v.fail("annotate", describe(r)); continue; }
			std::string page;
			for (auto& x : W.grammars) {
				std::string pg;
				if (!read_file("ann/g" + std::to_string(x.second) + ".html", pg)) { v.fail("annotate-page", "no page for grammar " + W.strings[x.first]); }
				page += pg;
			}
			for (auto& x : W.entries) {
				if (x.second.type != 0) { continue; }
				std::string want = "<a href=\"rs/" + std::to_string(x.first.second) + ".html\" class=\"entry " + (x.second.match ? "good" : "bad") + "\"><span class=\"stats\">M:" + std::to_string(x.second.match) + ", F:" + std::to_string(x.second.fail) + "</span>";
				if (page.find(want) == std::string::npos) { v.fail("annotate-counts", "the page does not show " + want); }
				std::string ex;
				bool have = read_file("ann/rs/" + std::to_string(x.first.second) + ".html", ex);
				if (have != (x.second.ex != 0)) { v.fail("annotate-example", key_name(x.first) + ": example page"); }
			}
			stat("p13.annotated");
		}
	}
	if (v.violated) { return v; }
	// the pages of cg-annotate on a failing disk
	auto pages = [&]() {
		std::map<std::string, std::string> m;
		if (!fs::is_directory(path_of("ann"))) { return m; }
		for (auto& e : fs::recursive_directory_iterator(path_of("ann"))) { if (e.is_regular_file()) { auto rel = fs::relative(e.path(), path_of("ann")).string(); fs_get("ann/" + rel, m[rel]); } }
		return m;
	};
	std::map<std::string, std::string> whole_pages;
	for (auto& o : sc.ops) {
		if (o.kind != "pages") { continue; }
		RunSpec a;
		a.tool = "cg-annotate";
		a.argv = {"db_whole", "ann"};
		if (whole_pages.empty()) {
			fs::remove_all(path_of("ann"));
			auto r = run(a);
			v.absorb(r);
			if (!r.ok()) { v.fail("annotate", describe(r)); return v; }
			whole_pages = pages();
		}
		fs::remove_all(path_of("ann"));
		auto it = whole_pages.begin();
		std::advance(it, static_cast<long>(static_cast<size_t>(o.i(1)) % whole_pages.size()));
		std::string k = o.s(0), lbl = "cg-annotate with a " + k + " fault at " + it->first;
		auto q = a;
		bool must = false;
		if (k == "folder") { fs_put("ann", "in the way"); must = true; stat("fault.unopenable_path"); }
		else if (k == "page") { fs::create_directories(path_of("ann/" + it->first)); must = true; stat("fault.unopenable_path"); }
		else {
			int64_t at = o.i(2) % static_cast<int64_t>(std::max<size_t>(1, it->second.size()));
			q.fs.push_back(FsFault{"/ann/" + it->first, "write", at, k});
			must = (k == "eio" || k == "enospc") && !it->second.empty();
			lbl += " byte " + std::to_string(at);
		}
		auto r = run(q);
		v.absorb(r);
		if (crashed(r) || r.kind == Kind::Hang || r.kind == Kind::Deadlock) { v.fail("crash:pages:" + k, lbl + ": " + describe(r)); return v; }
		if (must && r.ok()) { v.fail("success:pages:" + k, lbl + ": success reported"); return v; }
		if (must && r.err.empty()) { v.fail("undiagnosed:pages:" + k, lbl + ": no diagnostics"); return v; }
		if (!must && k != "kill" && (!r.ok() || pages() != whole_pages)) { v.fail("pages:" + k, lbl + ": " + (r.ok() ? "pages differ" : describe(r))); return v; }
		// once the disk works again, the next run repairs what was left
		if (k == "folder" || k == "page") { fs::remove_all(path_of("ann")); }
		r = run(a);
		v.absorb(r);
		if (!r.ok() || pages() != whole_pages) { v.fail("pages-after:" + k, lbl + ", then again without: " + (r.ok() ? "pages differ" : describe(r))); return v; }
		stat("p13.page_faults");
	}
	// faults
	for (auto& o : sc.ops) {
		if (o.kind != "fault") { continue; }
		std::string target = o.s(0), kind = o.s(1), dbo = "db_out";
		bool prior = o.i(3) && target != "annotate";
		fs::remove_all(path_of("ann"));
		for (auto& e : fs::directory_iterator(scratch_dir())) { if (e.path().filename().string().compare(0, 6, "db_out") == 0) { fs::remove(e.path()); } }
		Db want, old;
		RunSpec s;
		std::vector<std::string> ins;
		if (target == "run") { s = spec(whole, dbo); want = W; }
		else if (target == "merge") {
			for (size_t i = 0; i < n; ++i) { ins.push_back("db_s" + std::to_string(i)); }
			if (n == 1) { ins.push_back("db_s0"); }
			want = n == 1 ? sum(S[0], S[0]) : T;
			s = merge_spec(dbo, ins);
		}
		else { s.tool = "cg-annotate"; s.argv = {"db_whole", "ann"}; want = W; }
		if (prior) { fs::copy_file(path_of("db_s0"), path_of(dbo)); old = S[0]; }
		std::string lbl = target + " with " + kind + " fault at " + o.s(2) + (prior ? " (a profile is there already)" : "");
		bool must = false;
		if (kind == "cut") {
			if (target == "run") { continue; }
			std::string b, src = target == "annotate" ? "db_whole" : ins[static_cast<size_t>(o.i(2)) % ins.size()];
			fs_get(src, b);
			size_t pages = b.size() / 4096, keep = static_cast<size_t>(o.i(2)) % std::max<size_t>(1, pages);
			fs_put("db_out_cut", std::string_view(b).substr(0, keep * 4096));
			lbl = target + " of a profile cut to " + std::to_string(keep) + " of " + std::to_string(pages) + " pages";
			if (target == "annotate") { s.argv[0] = "db_out_cut"; } else { for (auto& x : s.argv) { if (x == src) { x = "db_out_cut"; break; } } }
			must = true;
			stat("fault.profile_cut");
		}
		else { s.sq_fault = kind; s.sq_at = o.i(2); }
		auto r = run(s);
		v.absorb(r);
		bool fired = must || r.kind == Kind::Stop;
		for (auto& c : r.counters) { if (c.first.compare(0, 13, "fault.sqlite_") == 0) { fired = true; } }
		stat(fired ? "p13.faults_fired" : "p13.faults_missed");
		std::string c = target + ":" + kind;
		if (r.kind == Kind::Signal && r.code != 6) { v.fail("crash:" + c, lbl + ": " + describe(r)); return v; }
		if (r.kind == Kind::Hang || r.kind == Kind::Deadlock) { v.fail("hang:" + c, lbl + ": " + describe(r)); return v; }
		bool ok = r.ok();
		if (!fired && !ok) { v.fail("fails:" + c, lbl + " which did not fire: " + describe(r)); return v; }
		if (target == "annotate") {
			if (ok && fired && (must || kind == "read")) {
				// a page of partial data?
				std::string a, b;
				bool same = true;
				std::map<std::string, std::string> got;
				for (auto& e : fs::recursive_directory_iterator(path_of("ann"))) { if (e.is_regular_file()) { auto rel = fs::relative(e.path(), path_of("ann")).string(); fs_get("ann/" + rel, got[rel]); } }
				fs::remove_all(path_of("ann"));
				RunSpec q;
				q.tool = "cg-annotate";
				q.argv = {"db_whole", "ann"};
				v.absorb(run(q));
				for (auto& e : fs::recursive_directory_iterator(path_of("ann"))) { if (e.is_regular_file()) { auto rel = fs::relative(e.path(), path_of("ann")).string(); std::string x; fs_get("ann/" + rel, x); if (!got.count(rel) || got[rel] != x) { same = false; } } }
				if (!same) { v.fail("partial:" + c, lbl + ": pages were written from an incomplete profile and success reported"); return v; }
			}
			continue;
		}
		if (r.kind == Kind::Exit && r.code != 0 && r.err.empty()) { v.fail("undiagnosed:" + c, lbl + ": no diagnostics"); return v; }
		if (target == "run" && r.kind == Kind::Exit && r.out != plain.out) { v.fail("output:" + c, lbl + " changed the output: " + diff_summary(plain.out, r.out)); return v; }
		bool have = fs::exists(path_of(dbo));
		Db left = have ? load(dbo) : Db();
		std::string d2 = have ? differs(want, left) : "missing";
		if (ok) {
			if (!d2.empty()) { v.fail("success:" + c, lbl + ": success reported, but the profile is wrong: " + d2); return v; }
			continue;
		}
		if (!have || d2.empty()) { continue; }
		if (prior && differs(old, left).empty()) { continue; }
		// something else was left: nobody may take it for a profile
		auto chk = run(merge_spec("db_out2", {dbo}));
		v.absorb(chk);
		if (crashed(chk)) { v.fail("left-crash:" + c, lbl + ": " + describe(chk)); return v; }
		if (chk.ok()) { v.fail("left:" + c, lbl + ": what was left is taken for a whole profile (" + d2 + ")"); return v; }
	}
	return v;
}
static Register r13({"P13", gen, exec});
} // namespace sim
