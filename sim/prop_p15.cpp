// P15: stream variables and commands act exactly where they stand in the stream.
#include "workload.hpp"
#include <algorithm>
#include <map>
#include <set>
namespace sim {

static const int NV = 3;                      // variables v0 .. v2
using VarState = std::map<std::string, std::string>; // set variables and their values ("*" = just set)

static void replay(VarState& s, const std::string& cmd) {
	bool set = cmd.compare(0, 7, "SETVAR:") == 0, rem = cmd.compare(0, 7, "REMVAR:") == 0;
	if (cmd == "FLUSH") { s.clear(); }
	if (!set && !rem) { return; }
	std::string l = cmd.substr(7), x;
	for (size_t i = 0; i <= l.size(); ++i) {
		if (i < l.size() && l[i] != ',') { x += l[i]; continue; }
		if (!x.empty()) {
			size_t e = x.find('=');
			if (rem) { s.erase(x); }
			else if (e == std::string::npos) { s[x] = "*"; }
			else { s[x.substr(0, e)] = x.substr(e + 1); }
		}
		x.clear();
	}
}
static std::string show(const VarState& s) {
	std::string r;
	for (auto& x : s) { r += (r.empty() ? "" : " ") + x.first + "=" + x.second; }
	return "{" + r + "}";
}

static Scenario gen(uint64_t seed, bool thorough) {
	Rng g(seed);
	Scenario sc;
	static const std::vector<std::string> tools = {"vislcg3", "vislcg3", "vislcg3", "vislcg3", "cg-conv", "cg-proc"};
	static const std::vector<std::string> I = {"cg", "cg", "cg", "jsonl", "jsonl", "apertium", "binary"}, O = {"cg", "cg", "cg", "jsonl", "binary"};
	std::string tool = g.pick(tools), ifmt = g.pick(I), ofmt = g.pick(O);
	if (tool == "cg-proc") { static const int fs[] = {0, 0, 1, 3}; int f = fs[g.below(4)]; sc.set("pf", f); ifmt = ofmt = f == 0 ? "cg" : f == 1 ? "apertium" : "binary"; }
	if (tool == "vislcg3" && ifmt == "apertium") { ofmt = g.chance(0.5) ? "apertium" : "cg"; }
	sc.set("tool", tool);
	sc.set("ifmt", ifmt);
	sc.set("ofmt", ofmt);
	bool rulevars = false;
	auto line = [&](const std::string& s) { sc.ops.push_back(Op("g", s)); };
	if (tool != "cg-conv") {
		line("DELIMITERS = \"<D.*D>\"r ;");
		if (g.chance(0.6)) { line("SOFT-DELIMITERS = \"<S.*S>\"r ;"); }
		line("LIST N = N ; LIST V = V ; LIST A = A ;");
		line("BEFORE-SECTIONS");
		line("ADD (ws) (*) (-1 (>>>)) ;");
		for (int k = 0; k < NV; ++k) {
			std::string n = std::to_string(k);
			line("ADD (hv" + n + ") (*) (0 (VAR:v" + n + ")) ;");
			for (int x = 0; x < 2; ++x) { line("ADD (hv" + n + "eq" + std::to_string(x) + ") (*) (0 (VAR:v" + n + "=" + std::to_string(x) + ")) ;"); }
		}
		// what the previous window's variables were
		line("ADD (pl) (*) (-1 (>>>)) (-2W (*)) ;");
		for (int k = 0; k < NV; ++k) { line("ADD (plv" + std::to_string(k) + ") (*) (-1 (>>>)) (-2W (LVAR:v" + std::to_string(k) + ")) ;"); }
		line("SECTION");
		static const std::vector<std::string> R = {
			"ADD (z1) N (1* V BARRIER A) ;", "ADD (z2) V (-1*W N) ;", "ADD (z3) (*) (1*W A) ;", "SELECT N (0 (VAR:v1)) (1 V) ;", "REMOVE V (0 (VAR:v0=1)) (-1*W N) ;",
			"ADD (z4) N (0 (VAR:v2)) ;", "REMOVE A (NOT 0 (VAR:v0)) (1W* V) ;", "SELECT V (-2*W A) ;", "SUBSTITUTE (Sg) (Sgx) (*) (0 (VAR:v1=0)) ;"};
		line("ADD (z0) N ;");
		for (int k = static_cast<int>(g.below(5)); k > 0; --k) { line(g.pick(R)); }
		if (g.chance(0.3)) {
			// rules that change variables at the end of a window: v3 and v4 belong to the grammar alone
			rulevars = true;
			line("AFTER-SECTIONS");
			line("SETVARIABLE (v3) (1) N ;");
			line("REMVARIABLE (v3) V (NOT 0 N) ;");
			line("ADD (fired) N (0 (Sg)) ;");
			line("SETVARIABLE OUTPUT (v4) (7) N (0 (Sg)) ;");
		}
		if (tool == "vislcg3") {
			auto cli = gen_cli(g);
			for (size_t i = 0; i < cli.size(); ++i) {
				Op a("arg", cli[i]);
				if (i + 1 < cli.size() && cli[i + 1][0] != '-') { a.a.push_back(cli[++i]); }
				sc.ops.push_back(a);
			}
		}
	}
	sc.set("rv", rulevars ? 1 : 0);
	// the document
	bool ign = ifmt != "apertium" && tool != "cg-proc" && g.chance(0.3), ext = ifmt != "apertium" && g.chance(0.12), fl = ifmt != "apertium" && g.chance(0.5);
	bool lists = g.chance(0.4), deps = ifmt == "cg" && tool == "vislcg3" && !ign && g.chance(0.08);
	double pv = g.chance(0.5) ? 0.15 : 0.4, pd = g.chance(0.2) ? 0.0 : 0.3, pt = g.chance(0.5) ? 0.1 : 0.0;
	int n = static_cast<int>(g.range(1, thorough && g.chance(0.3) ? 120 : g.chance(0.15) ? 60 : 16));
	int id = 0, in_win = 0;
	if (deps) { sc.ops.push_back(Op("arg", "--dep-delimit", std::to_string(g.range(1, 8)))); }
	auto cmd = [&]() {
		int m = lists && g.chance(0.5) ? static_cast<int>(g.range(2, 3)) : 1;
		std::string c;
		bool rem = g.chance(0.35);
		for (int k = 0; k < m; ++k) {
			c += (c.empty() ? "" : ",") + std::string("v") + std::to_string(g.below(NV));
			if (!rem && g.chance(0.4)) { c += "=" + std::to_string(g.below(2)); }
		}
		sc.ops.push_back(Op("k", (rem ? "REMVAR:" : "SETVAR:") + c));
	};
	auto coh = [&]() {
		static const std::vector<std::string> STEM = {"dog", "été", "x-y", "run"};
		static const std::vector<std::string> TAG = {"N", "V", "A", "Sg", "Pl"};
		Coh c;
		std::string n1 = std::to_string(++id);
		++in_win;
		bool delim = g.chance(pd), soft = !delim && g.chance(0.12);
		c.wf = delim ? "D" + n1 + "D" : soft ? "S" + n1 + "S" : g.pick(STEM) + "W" + n1 + "W";
		size_t nr = 1 + g.below(2);
		for (size_t k = 0; k < nr; ++k) { c.rs.push_back({"B" + n1 + "_" + std::to_string(k), {TAG[(k * 2 + g.below(2)) % 5], TAG[3 + g.below(2)]}, {}}); }
		if (deps) { c.rs[0].tags.push_back("#" + std::to_string(in_win) + "->0"); if (g.chance(0.3)) { in_win = 0; } }
		sc.ops.push_back(coh_op(c));
		if (delim) { in_win = 0; }
	};
	bool exited = false;
	for (int i = 0; i < n; ++i) {
		while (g.chance(pv)) { cmd(); }
		if (g.chance(pt)) { sc.ops.push_back(Op("t", "T" + std::to_string(++id) + "T")); }
		if (fl && g.chance(0.08)) { sc.ops.push_back(Op("k", "FLUSH")); in_win = 0; }
		if (ign && g.chance(0.1)) {
			sc.ops.push_back(Op("k", "FLUSH"));
			in_win = 0;
			if (g.chance(0.3)) { cmd(); } // still waits for its window
			sc.ops.push_back(Op("k", "IGNORE"));
			for (size_t k = g.below(4); k > 0; --k) { if (g.chance(0.3)) { sc.ops.push_back(Op("t", "ign T" + std::to_string(++id) + "T")); } else { coh(); } }
			sc.ops.push_back(Op("k", "RESUME"));
			in_win = 0;
		}
		if (ext && !exited && i > n / 2 && g.chance(0.3)) {
			if (g.chance(0.6)) { sc.ops.push_back(Op("k", "FLUSH")); }
			sc.ops.push_back(Op("k", "EXIT"));
			exited = true;
		}
		coh();
	}
	while (g.chance(pv)) { cmd(); }
	if (fl && g.chance(0.3)) { sc.ops.push_back(Op("k", "FLUSH")); }
	while (g.chance(pv / 2)) { cmd(); }
	sc.set("chunks", gen_chunks(g));
	return sc;
}

static std::string token(const std::string& l) { // W17W, D17D or S17S in a line
	for (size_t i = 0; i < l.size(); ++i) {
		if (!strchr("WDS", l[i])) { continue; }
		size_t j = i + 1;
		while (j < l.size() && isdigit(static_cast<unsigned char>(l[j]))) { ++j; }
		if (j < l.size() && j > i + 1 && l[j] == l[i]) { return l.substr(i, j + 1 - i); }
	}
	return "";
}

static Verdict exec(const Scenario& sc) {
	Verdict v;
	std::string ifmt = sc.gets("ifmt"), ofmt = sc.gets("ofmt");
	auto w = build_stream(sc);
	if (!w.ok || w.spec.in.empty()) { v.trivial = true; return v; }
	w.spec.chunks = parse_chunks(sc.gets("chunks"));
	std::string tool = w.spec.tool, tag = tool + ":" + ifmt + ">" + ofmt;
	auto r = run(w.spec);
	v.absorb(r);
	if (!r.ok()) { v.fail("fails:" + tag, describe(r)); return v; }
	bool ap = ofmt == "apertium";
	std::string cg = r.out;
	if (ofmt != "cg" && !ap) {
		RunSpec b;
		b.tool = "cg-conv";
		b.argv = {"--in-" + ofmt, "--out-cg"};
		b.in = r.out;
		auto br = run(b);
		v.absorb(br);
		if (!br.ok()) { if (!r.out.empty()) { v.fail("unreadable:" + tag, "the tool's own output cannot be read back: " + describe(br)); } return v; }
		cg = br.out;
	}
	// what the stream says: per token the variables in force, per block what is to pass through
	struct Tok { std::string id; VarState st; size_t segment; };
	std::vector<Tok> want;
	std::map<std::string, size_t> at;
	std::vector<std::vector<std::string>> blocks;
	std::set<std::string> forbidden;
	VarState st;
	bool ignoring = false, gone = false, exits = false;
	size_t safe = 0, seg = 0;       // tokens before the last flush ahead of an exit
	VarState last;
	std::vector<VarState> at_flush;
	for (auto& o : sc.ops) {
		if (o.kind == "k") {
			auto& c = o.s(0);
			if (gone) { continue; }
			if (c == "IGNORE") { ignoring = true; blocks.emplace_back(); continue; }
			if (c == "RESUME") { ignoring = false; continue; }
			if (c == "EXIT") { gone = exits = true; continue; }
			if (c == "FLUSH") { at_flush.push_back(st); safe = want.size(); ++seg; }
			replay(st, c);
		}
		else if (o.kind == "c" || o.kind == "t") {
			if (ignoring && !gone) { auto bl = split_lines(ser_op(o, ifmt == "jsonl" && o.kind == "c" ? Fmt::JSONL : Fmt::CG)); for (auto& l : bl) { if (!l.empty()) { blocks.back().push_back(l); } } continue; }
			if (o.kind == "t") { continue; }
			Coh c;
			op_coh(o, c);
			std::string id = token(c.wf);
			if (gone) { forbidden.insert(id); continue; }
			at[id] = want.size();
			want.push_back({id, st, seg});
		}
	}
	// what came out
	std::vector<std::vector<std::string>> oblocks;
	VarState ost;
	bool oign = false, oexit = false;
	size_t nexttok = 0, nwin = 0;
	std::string cur;
	std::vector<std::string> rtags;
	VarState before;  // output variables in force when the current cohort was printed
	bool rv = sc.geti("rv") != 0;
	size_t nflush = 0;
	auto strip = [&](VarState s) { s.erase("v3"); s.erase("v4"); return s; };
	VarState winmodel, prevmodel;
	bool fired = false, announced = false, next_announced = false;
	int nlvar = 0, nvar = 0, nws = 0;
	for (auto& o : sc.ops) { if (o.kind == "g") { nlvar += o.s(0).compare(0, 8, "ADD (plv") == 0; nws += o.s(0).compare(0, 8, "ADD (ws)") == 0; nvar += o.s(0).compare(0, 7, "ADD (hv") == 0; } }
	auto end_window = [&]() -> bool {
		if (rv && nws && nwin && !ap && fired != announced) { v.fail("output:" + tag, std::string("a SETVARIABLE OUTPUT rule ") + (fired ? "acted" : "did not act") + " in window " + std::to_string(nwin) + " but its command was " + (announced ? "" : "not ") + "printed before that window"); return false; }
		fired = false;
		announced = next_announced;
		next_announced = false;
		return true;
	};
	auto close = [&]() -> bool {
		if (cur.empty()) { return true; }
		auto it = at.find(cur);
		if (it == at.end()) {
			v.fail("after-exit:" + tag, (forbidden.count(cur) ? "token " + cur + " stands after an exit command but was processed" : "token " + cur + " was processed although it is not part of the stream to process"));
			return false;
		}
		if (it->second != nexttok) { v.fail("order:" + tag, "token " + cur + " came out of turn"); return false; }
		++nexttok;
		if (tool == "cg-conv") {
			if (before != want[it->second].st) { v.fail("misplaced:" + tag, "before token " + cur + " the input had set " + show(want[it->second].st) + " but the output " + show(before)); return false; }
			cur.clear();
			return true;
		}
		std::set<std::string> t(rtags.begin(), rtags.end());
		if (!nws) { cur.clear(); return true; }
		if (t.count("ws")) {
			if (!end_window()) { return false; }
			++nwin;
			prevmodel = winmodel;
			winmodel = want[it->second].st;
			if (!ap && strip(before) != winmodel) { v.fail("misplaced:" + tag, "the window of token " + cur + " starts where the input had set " + show(winmodel) + " but the output " + show(strip(before))); return false; }
		}
		fired |= t.count("fired") != 0;
		if (t.count("pl") && nlvar == NV) {
			for (int k = 0; k < NV; ++k) {
				std::string n = "v" + std::to_string(k);
				if ((t.count("pl" + n) != 0) != (prevmodel.count(n) != 0)) { v.fail("previous:" + tag, "at token " + cur + " the previous window's " + n + " is seen as " + (t.count("pl" + n) ? "set" : "not set") + " but it had " + show(prevmodel)); return false; }
			}
		}
		VarState seen;
		for (int k = 0; k < NV; ++k) {
			std::string n = "v" + std::to_string(k);
			if (t.count("h" + n)) { seen[n] = "*"; }
			for (auto x : {"0", "1"}) { if (t.count("h" + n + "eq" + x)) { seen[n] = x; } }
		}
		if (seen != winmodel && nvar == 3 * NV) { v.fail("state:" + tag, "rules saw " + show(seen) + " at token " + cur + " but at the start of its window " + show(winmodel) + " was set"); return false; }
		cur.clear();
		return true;
	};
	auto lines = split_lines(cg);
	if (ap) { // [<STREAMCMD:...>]^wf/base<tag>$
		std::vector<std::string> l2;
		std::string x;
		for (size_t i = 0; i < cg.size(); ++i) {
			if (cg[i] != '^') { continue; }
			size_t e = cg.find('$', i);
			if (e == std::string::npos) { break; }
			std::string c = cg.substr(i + 1, e - i - 1);
			l2.push_back("\"<" + c.substr(0, c.find('/')) + ">\"");
			for (size_t q = c.find('/'); q != std::string::npos;) {
				size_t q2 = c.find('/', q + 1);
				std::string rd = c.substr(q + 1, q2 == std::string::npos ? q2 : q2 - q - 1);
				for (auto& ch : rd) { if (ch == '<' || ch == '>') { ch = ' '; } }
				l2.push_back("\t\"" + rd.substr(0, rd.find(' ')) + "\" " + rd);
				q = q2;
			}
			i = e;
		}
		lines = l2;
	}
	for (auto& l : lines) {
		if (l.compare(0, 11, "<STREAMCMD:") == 0) {
			std::string c = l.substr(11, l.size() - 12);
			if (c == "RESUME") { oign = false; continue; }
			if (oign) { oblocks.back().push_back(l); continue; }
			if (!close()) { return v; }
			if (c == "IGNORE") { oign = true; oblocks.emplace_back(); continue; }
			if (oexit) { v.fail("after-exit:" + tag, "output after the exit command: " + l); return v; }
			if (c == "EXIT") { oexit = true; continue; }
			if (c == "FLUSH") {
				if (nflush < at_flush.size() && strip(ost) != at_flush[nflush]) { v.fail("misplaced:" + tag, "at flush " + std::to_string(nflush + 1) + " the input had set " + show(at_flush[nflush]) + " but the output " + show(strip(ost))); return v; }
				++nflush;
			}
			replay(ost, c);
			if (c.compare(0, 9, "SETVAR:v4") == 0) { next_announced = true; }
			continue;
		}
		if (oign) { if (!l.empty()) { oblocks.back().push_back(l); } continue; }
		if (l.compare(0, 2, "\"<") == 0) {
			if (!close()) { return v; }
			if (oexit) { v.fail("after-exit:" + tag, "output after the exit command: " + l); return v; }
			cur = token(l);
			rtags.clear();
			before = ost;
		}
		else if (!cur.empty() && l.compare(0, 2, "\t\"") == 0) { if (rtags.empty()) { rtags = words(l.substr(l.rfind("\" ") == std::string::npos ? 0 : l.rfind("\" ") + 2)); } }
	}
	if (!close() || !end_window()) { return v; }
	stat("p15.tokens", nexttok);
	stat("p15.windows", nwin);
	v.hash = mix(v.hash, nwin);
	if (exits) {
		if (nexttok < safe) { v.fail("lost-before-exit:" + tag, "only " + std::to_string(nexttok) + " of " + std::to_string(safe) + " tokens ahead of the last flush before the exit command came out"); return v; }
		if (!ap && !oexit) { v.fail("exit-lost:" + tag, "the exit command is not reproduced"); return v; }
	}
	else {
		if (nexttok != want.size()) { v.fail("lost:" + tag, std::to_string(nexttok) + " of " + std::to_string(want.size()) + " tokens came out"); return v; }
		if (!ap && strip(ost) != st) { v.fail("misplaced:" + tag, "at the end of the stream the input had set " + show(st) + " but the output " + show(strip(ost))); return v; }
		if (!ap && nflush != at_flush.size()) { v.fail("flushes:" + tag, std::to_string(at_flush.size()) + " flush commands went in and " + std::to_string(nflush) + " came out"); return v; }
	}
	(void)rv;
	if (blocks != oblocks) {
		std::string a, b;
		for (auto& x : blocks) { a += "[" + join(x, "|") + "]"; }
		for (auto& x : oblocks) { b += "[" + join(x, "|") + "]"; }
		v.fail("ignored:" + tag, "input to be ignored " + esc(a) + " came out as " + esc(b));
	}
	return v;
}
static Register r15({"P15", gen, exec});
} // namespace sim
