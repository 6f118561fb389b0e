#include "gen.hpp"
#include <algorithm>
#include <dirent.h>
#include <fstream>
#include <sstream>
#include <sys/stat.h>

#ifndef VERIF_DIR
#define VSTR_(x) #x
#define VSTR(x) VSTR_(x)
#define VERIF_DIR VSTR(VERIF_DIR_RAW)
#endif

namespace sim {

std::vector<std::string> words(const std::string& s) {
	std::vector<std::string> r;
	std::stringstream ss(s);
	std::string w;
	while (ss >> w) { r.push_back(w); }
	return r;
}
std::string join(const std::vector<std::string>& v, const std::string& sep) {
	std::string r;
	for (size_t i = 0; i < v.size(); ++i) { if (i) { r += sep; } r += v[i]; }
	return r;
}

// ---------------------------------------------------------------- documents --
static std::string rd_str(const Rd& r) {
	std::string s = r.base;
	for (auto& t : r.tags) { s += '|' + t; }
	for (auto& x : r.subs) { s += "||" + rd_str(x); }
	return s;
}
static Rd rd_parse(const std::string& s) {
	Rd out;
	Rd* cur = &out;
	size_t p = 0;
	bool first = true;
	while (p <= s.size()) {
		size_t e = s.find('|', p);
		if (e == std::string::npos) { e = s.size(); }
		std::string w = s.substr(p, e - p);
		p = e + 1;
		if (first) { cur->base = w; first = false; continue; }
		if (w.empty()) { cur->subs.emplace_back(); cur = &cur->subs.back(); first = true; continue; }
		cur->tags.push_back(w);
	}
	return out;
}
Op coh_op(const Coh& c) {
	Op o("c");
	o.a.push_back(join(c.stags, "|"));
	o.a.push_back(c.wf);
	for (auto& r : c.rs) { o.a.push_back(rd_str(r)); }
	return o;
}
bool op_coh(const Op& o, Coh& c) {
	if (o.kind != "c" || o.a.size() < 2) { return false; }
	c = Coh();
	std::stringstream ss(o.a[0]);
	std::string w;
	while (std::getline(ss, w, '|')) { if (!w.empty()) { c.stags.push_back(w); } }
	c.wf = o.a[1];
	for (size_t i = 2; i < o.a.size(); ++i) { if (!o.a[i].empty()) { c.rs.push_back(rd_parse(o.a[i])); } }
	return true;
}
bool is_doc_op(const Op& o) { return o.kind == "c" || o.kind == "t" || o.kind == "k"; }

static const std::vector<std::string> BASES = {"the", "dog", "cat", "see", "run", "big", "old", "house", "in", "on", "quickly", "be", "lion", "word"};
static const std::vector<std::string> POS = {"N", "V", "A", "D", "P", "ADV", "PRON", "CC"};
static const std::vector<std::string> FEAT = {"Sg", "Pl", "Nom", "Acc", "Past", "Pres", "<hum>", "<W:12>", "<W:50>", "Def", "Indef"};
static const std::vector<std::string> MAPS = {"@SUBJ", "@OBJ", "@>N", "@P<", "@ADVL"};
static const std::vector<std::string> WEIRD = {"æøå", "日本語", "naïve", "Ω≈ç", "𝔘𝔫𝔦", "e\u0301", "a'b", "50%", "été", "ﬁn", "x-y", "3.14", "żółć", "\u0645\u0631\u062d", "😀ok"};

std::vector<Op> gen_doc(Rng& g, const DocOpts& o) {
	std::vector<Op> v;
	int n = static_cast<int>(g.range(o.min_coh, o.max_coh)), id = o.first_id;
	bool ignoring = false;
	int in_win = 0;
	auto text = [&]() {
		std::string t;
		switch (g.below(6)) {
		case 0: t = "<s id=\"u" + std::to_string(g.below(100)) + "\">"; break;
		case 1: t = "</s>"; break;
		case 2: t = "text " + std::to_string(id) + " " + g.pick(WEIRD); break;
		case 3: t = "¶ " + g.pick(WEIRD) + g.pick(WEIRD); break;
		case 4: t = "# comment" + std::to_string(g.below(50)); break;
		default: t = "<p>" + g.pick(BASES) + "</p>"; break;
		}
		if (g.chance(o.p_long)) { t += " "; size_t m = static_cast<size_t>(g.chance(0.5) ? 1000 + g.below(60) : g.below(5000)); while (t.size() < m) { t += g.chance(0.1) ? g.pick(WEIRD) : std::string("lorem"); } }
		v.push_back(Op("t", t));
	};
	for (int i = 0; i < n; ++i) {
		if (g.chance(o.p_text)) { text(); }
		if (o.p_cmd > 0 && g.chance(o.p_cmd)) {
			std::vector<std::string> cs;
			if (o.flush) { cs.push_back("FLUSH"); cs.push_back("FLUSH"); }
			if (o.vars) {
				cs.push_back("SETVAR:v" + std::to_string(g.below(4)));
				cs.push_back("SETVAR:v" + std::to_string(g.below(4)) + "=" + std::to_string(g.below(3)));
				cs.push_back("REMVAR:v" + std::to_string(g.below(4)));
				if (g.chance(0.3)) { cs.push_back("SETVAR:v0,v" + std::to_string(1 + g.below(3)) + "=x"); }
				if (g.chance(0.3)) { cs.push_back("REMVAR:v0,v" + std::to_string(1 + g.below(3))); }
			}
			if (o.ignore) { cs.push_back(ignoring ? "RESUME" : "IGNORE"); if (ignoring) { cs.push_back("RESUME"); cs.push_back("RESUME"); } }
			if (o.exit && i > n / 2 && g.chance(0.15)) { cs.push_back("EXIT"); }
			if (!cs.empty()) {
				std::string c = g.pick(cs);
				if (c == "IGNORE") { ignoring = true; }
				if (c == "RESUME") { ignoring = false; }
				v.push_back(Op("k", c));
			}
		}
		Coh c;
		++id;
		++in_win;
		bool delim = g.chance(o.p_delim);
		bool soft = !delim && g.chance(o.p_soft);
		if (delim || soft) {
			c.wf = delim ? (o.plain_ok ? "." : g.chance(0.6) ? "$." : g.chance(0.5) ? "$!" : "$?") : (o.plain_ok ? "," : "$,");
			Rd r{c.wf, {delim ? "PUNCT" : "COMMA"}, {}};
			c.rs.push_back(r);
			v.push_back(coh_op(c));
			if (delim) { in_win = 0; }
			continue;
		}
		std::string stem = g.pick(BASES);
		if (g.chance(o.p_weird)) { stem += g.pick(WEIRD); }
		c.wf = o.unique ? stem + "_" + std::to_string(id) : stem;
		if (g.chance(o.p_long)) { while (c.wf.size() < 20 + g.below(300)) { c.wf += g.pick(BASES); } }
		if (!o.plain_ok && g.chance(0.04)) { c.wf += " " + g.pick(BASES); }
		if (!o.plain_ok && g.chance(0.03)) { c.stags.push_back("<st" + std::to_string(g.below(4)) + ">"); }
		size_t nr = g.chance(0.06) ? 0 : 1 + g.below(3);
		for (size_t k = 0; k < nr; ++k) {
			Rd r;
			r.base = g.chance(0.7) ? stem : g.pick(BASES);
			r.tags.push_back(g.pick(POS));
			size_t nf = g.below(3);
			for (size_t f = 0; f < nf; ++f) {
				auto t = g.pick(FEAT);
				if (std::find(r.tags.begin(), r.tags.end(), t) == r.tags.end()) { r.tags.push_back(t); }
			}
			if (g.chance(o.p_sub)) { Rd s{g.pick(BASES), {g.pick(POS)}, {}}; if (g.chance(0.3)) { s.subs.push_back(Rd{g.pick(BASES), {g.pick(POS)}, {}}); } r.subs.push_back(s); }
			if (o.mappings && g.chance(0.1)) { r.tags.push_back(g.pick(MAPS)); }
			if (g.chance(o.p_long * 0.5)) { for (int x = 0; x < 120; ++x) { r.tags.push_back("xt" + std::to_string(x) + g.pick(WEIRD)); } }
			c.rs.push_back(r);
		}
		if (o.deps && !c.rs.empty()) {
			int parent = static_cast<int>(g.below(static_cast<uint64_t>(in_win + 2)));
			c.rs[0].tags.push_back("#" + std::to_string(in_win) + "->" + std::to_string(parent));
		}
		if (o.far_rels && !c.rs.empty()) {
			c.rs[0].tags.push_back("ID:" + std::to_string(o.rel_base + id));
			for (int64_t x = g.range(0, 3); x > 0; --x) { c.rs[0].tags.push_back("R:rel" + std::to_string(g.below(2)) + ":" + std::to_string(o.rel_base + std::max<int64_t>(1, id - g.range(-9, 9)))); }
		}
		else if (o.rels && !c.rs.empty() && g.chance(0.3)) {
			c.rs[0].tags.push_back("ID:" + std::to_string(o.rel_base + id));
			if (g.chance(0.7)) { c.rs[0].tags.push_back("R:rel" + std::to_string(g.below(3)) + ":" + std::to_string(o.rel_base + std::max<int64_t>(1, id - g.range(-3, 3)))); }
		}
		v.push_back(coh_op(c));
	}
	if (ignoring) { v.push_back(Op("k", "RESUME")); }
	if (g.chance(0.3)) { text(); }
	return v;
}

const char* fmt_name(Fmt f) {
	switch (f) {
	case Fmt::CG: return "cg";
	case Fmt::Apertium: return "apertium";
	case Fmt::Niceline: return "niceline";
	case Fmt::FST: return "fst";
	case Fmt::Plain: return "plain";
	case Fmt::JSONL: return "jsonl";
	}
	return "?";
}
Fmt fmt_from(const std::string& s) {
	for (Fmt f : {Fmt::CG, Fmt::Apertium, Fmt::Niceline, Fmt::FST, Fmt::Plain, Fmt::JSONL}) { if (s == fmt_name(f)) { return f; } }
	return Fmt::CG;
}
std::string fmt_in_flag(Fmt f) { return std::string("--in-") + fmt_name(f); }

static void ser_rd_cg(std::string& s, const Rd& r, int depth) {
	s.append(static_cast<size_t>(depth), '\t');
	s += "\"" + r.base + "\"";
	for (auto& t : r.tags) { s += " " + t; }
	s += "\n";
	for (auto& x : r.subs) { ser_rd_cg(s, x, depth + 1); }
}
static std::string ap_esc(const std::string& s) {
	std::string r;
	for (char c : s) {
		if (strchr("^$@/[]{}<>\\", c)) { r += '\\'; }
		r += c;
	}
	return r;
}
static std::string jstr(const std::string& s) {
	std::string r = "\"";
	for (char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c == '\n') { r += "\\n"; }
		else if (c == '\t') { r += "\\t"; }
		else { r += c; }
	}
	return r + "\"";
}
static std::string tag_bare(const std::string& t) { return t.size() > 2 && t.front() == '<' && t.back() == '>' ? t.substr(1, t.size() - 2) : t; }
static void ser_rd_ap(std::string& s, const Rd& r) {
	// main reading last, sub-readings in front, joined by +
	std::vector<const Rd*> chain;
	for (const Rd* p = &r; p; p = p->subs.empty() ? nullptr : &p->subs[0]) { chain.push_back(p); }
	for (size_t i = chain.size(); i-- > 0;) {
		s += ap_esc(chain[i]->base);
		for (auto& t : chain[i]->tags) { s += "<" + ap_esc(tag_bare(t)) + ">"; }
		if (i) { s += "+"; }
	}
}
static std::string ser_rd_json(const Rd& r) {
	std::string s = "{\"l\":" + jstr(r.base);
	if (!r.tags.empty()) {
		s += ",\"ts\":[";
		for (size_t i = 0; i < r.tags.size(); ++i) { s += (i ? "," : "") + jstr(r.tags[i]); }
		s += "]";
	}
	if (!r.subs.empty()) { s += ",\"s\":" + ser_rd_json(r.subs[0]); }
	return s + "}";
}
std::string ser_op(const Op& o, Fmt f) {
	Coh c;
	std::string s;
	if (o.kind == "t") {
		switch (f) {
		case Fmt::Apertium: return "[" + ap_esc(o.s(0)) + "]";
		case Fmt::Plain: return "";
		case Fmt::JSONL: return "{\"t\":" + jstr(o.s(0)) + "}\n";
		case Fmt::Niceline:
		case Fmt::FST: return "<" + o.s(0) + "\n";
		default: return o.s(0) + "\n";
		}
	}
	if (o.kind == "k") {
		switch (f) {
		case Fmt::Apertium:
			if (o.s(0) == "FLUSH") { return std::string(1, '\0'); }
			if (o.s(0).compare(0, 6, "SETVAR") == 0 || o.s(0).compare(0, 6, "REMVAR") == 0) { return "[<STREAMCMD:" + o.s(0) + ">]"; }
			return "";
		case Fmt::CG: return "<STREAMCMD:" + o.s(0) + ">\n";
		case Fmt::JSONL: return "{\"cmd\":" + jstr("<STREAMCMD:" + o.s(0) + ">") + "}\n";
		default: return "";
		}
	}
	if (!op_coh(o, c)) { return ""; }
	switch (f) {
	case Fmt::CG:
		s = "\"<" + c.wf + ">\"";
		for (auto& t : c.stags) { s += " " + t; }
		s += "\n";
		for (auto& r : c.rs) { ser_rd_cg(s, r, 1); }
		return s;
	case Fmt::Apertium:
		s = "^" + ap_esc(c.wf);
		if (c.rs.empty()) { s += "/*" + ap_esc(c.wf); }
		for (auto& r : c.rs) { s += "/"; ser_rd_ap(s, r); }
		return s + "$ ";
	case Fmt::Niceline:
		s = c.wf + "\t";
		for (size_t i = 0; i < c.rs.size(); ++i) {
			if (i) { s += "\t"; }
			s += "[" + c.rs[i].base + "]";
			for (auto& t : c.rs[i].tags) { s += " " + t; }
		}
		return s + "\n";
	case Fmt::FST:
		if (c.rs.empty()) { return c.wf + "\t+?\n\n"; }
		for (auto& r : c.rs) {
			s += c.wf + "\t" + r.base;
			for (auto& t : r.tags) { s += "+" + t; }
			s += "\t0.5\n";
		}
		return s + "\n";
	case Fmt::Plain:
		return c.wf + ((c.wf == "." || c.wf == "!" || c.wf == "?") ? "\n" : " ");
	case Fmt::JSONL:
		s = "{\"w\":" + jstr(c.wf);
		if (!c.stags.empty()) {
			s += ",\"sts\":[";
			for (size_t i = 0; i < c.stags.size(); ++i) { s += (i ? "," : "") + jstr(c.stags[i]); }
			s += "]";
		}
		if (!c.rs.empty()) {
			s += ",\"rs\":[";
			for (size_t i = 0; i < c.rs.size(); ++i) { s += (i ? "," : "") + ser_rd_json(c.rs[i]); }
			s += "]";
		}
		return s + "}\n";
	}
	return s;
}
std::string ser_doc(const std::vector<Op>& v, Fmt f) {
	std::string s;
	for (auto& o : v) { if (is_doc_op(o)) { s += ser_op(o, f); } }
	return s;
}

// ---------------------------------------------------------------- grammars ---
GramOpts random_gram_opts(Rng& g) {
	GramOpts o;
	o.cohorts = g.chance(0.25);
	o.deps = g.chance(0.3);
	o.rels = g.chance(0.15);
	o.vars = g.chance(0.25);
	o.delim = g.chance(0.1);
	o.spans = g.chance(0.35);
	o.with = g.chance(0.15);
	o.unify = g.chance(0.3);
	o.magic = g.chance(0.3);
	o.soft = g.chance(0.5);
	return o;
}
static const std::vector<std::string> SETS = {"N", "V", "A", "D", "P", "ADV", "PRON", "NOM", "NV", "NotN", "Hum", "Word", "(*)", "(N Sg)", "(\"the\")", "(V Past)", "(\"dog\" N)", "(<W>20>)", "(<W=MAX>)", "(<W=MIN>)", "(Sg)", "(\".*o.*\"r)", "(\"<the>\")", "(\"CAT\"i)"};
static std::string ctx(Rng& g, const GramOpts& o, int depth = 0) {
	static const std::vector<std::string> pos = {"-1", "1", "0", "-2", "2", "*-1", "*1", "-1*", "1*", "@1", "@-1", "**-1", "0*", "-1C", "1C", "*1C", "-1*C", "*0"};
	static const std::vector<std::string> wpos = {"*-1W", "*1W", "-1*W", "1*W", "-1W", "1W", "**1W"};
	std::string s;
	if (depth == 0 && g.chance(0.2)) { s += g.chance(0.5) ? "NOT " : "NEGATE "; }
	if (o.deps && g.chance(0.25)) { static const std::vector<std::string> dp = {"p", "c", "s", "p*", "cc", "ll", "rr"}; s += g.pick(dp); }
	else if (o.rels && g.chance(0.3)) { static const std::vector<std::string> rp = {"r:rel0", "r:rel1", "r:*", "lr:rel0", "lr:*", "llr:*", "llr:rel2", "Sr:rel1"}; s += g.pick(rp); }
	else if (o.spans && g.chance(0.4)) { s += g.pick(wpos); }
	else { s += g.pick(pos); }
	s += " " + g.pick(SETS);
	bool scan = s.find('*') != std::string::npos && s.find("(*") == std::string::npos;
	if (scan && g.chance(0.3)) {
		auto k = g.below(10);
		if (k < 4) { s += " CBARRIER " + g.pick(SETS); }
		if (k > 2) { s += " BARRIER " + g.pick(SETS); }
	}
	if (depth < 2 && g.chance(0.2)) { s += " LINK " + ctx(g, o, depth + 1); }
	return s;
}
static std::string ctxs(Rng& g, const GramOpts& o, int lo, int hi) {
	std::string s;
	int n = static_cast<int>(g.range(lo, hi));
	for (int i = 0; i < n; ++i) {
		if (o.vars && g.chance(0.35)) { s += " (0 (VAR:v" + std::to_string(g.below(4)) + (g.chance(0.3) ? "=" + std::to_string(g.below(3)) : "") + "))"; }
		else { s += " (" + ctx(g, o) + ")"; }
	}
	return s;
}
static std::string rflag(Rng& g, double p) {
	if (!g.chance(p)) { return ""; }
	static const std::vector<std::string> F = {"IGNORED ", "IGNORED ", "DELAYED ", "IMMEDIATE ", "UNSAFE ", "ITERATE ", "SAFE ", "REMEMBERX "};
	return g.pick(F);
}
static std::string rule(Rng& g, const GramOpts& o, int idx) {
	std::vector<int> kinds;
	auto add = [&](int k, int w) { for (int i = 0; i < w; ++i) { kinds.push_back(k); } };
	if (o.ops) { for (int k = 0; k <= 9; ++k) { add(k, 2); } }
	if (o.deps) { add(20, 4); add(21, 2); add(22, 1); }
	if (o.rels) { add(25, 3); add(26, 2); add(27, 2); }
	if (o.cohorts) { for (int k = 30; k <= 37; ++k) { add(k, 2); } }
	if (o.vars) { add(40, 3); add(41, 2); }
	if (o.delim) { add(45, 3); }
	if (o.with) { add(50, 4); }
	if (o.unify) { add(55, 4); add(56, 2); }
	std::string T = g.pick(SETS), tag = "@r" + std::to_string(idx), t2 = "t" + std::to_string(idx % 3);
	switch (g.pick(kinds)) {
	case 0: return "SELECT " + rflag(g, o.cohorts ? 0.45 : 0.15) + T + ctxs(g, o, 0, 2) + " ;";
	case 1: return "REMOVE " + rflag(g, o.cohorts ? 0.45 : 0.15) + T + ctxs(g, o, 1, 2) + " ;";
	case 2: return "IFF " + rflag(g, o.cohorts ? 0.45 : 0.15) + T + ctxs(g, o, 1, 2) + " ;";
	case 3: return "MAP (" + tag + ") " + T + ctxs(g, o, 0, 2) + " ;";
	case 4: return "ADD (" + tag + ") " + T + ctxs(g, o, 0, 2) + " ;";
	case 5: return "REPLACE (\"rep\" " + t2 + ") " + T + ctxs(g, o, 1, 2) + " ;";
	case 6: return "SUBSTITUTE (Sg) (" + t2 + " Sgx) " + T + ctxs(g, o, 0, 2) + " ;";
	case 7: return "APPEND (\"app\" " + t2 + " N) " + T + ctxs(g, o, 1, 2) + " ;";
	case 8: return "COPY (cp" + t2 + ") EXCEPT (cp" + t2 + ") " + T + ctxs(g, o, 1, 2) + " ;";
	case 9: return std::string(g.chance(0.5) ? "PROTECT " : "UNMAP ") + T + ctxs(g, o, 0, 1) + " ;";
	case 20: return "SETPARENT " + T + ctxs(g, o, 0, 1) + " TO (" + (g.chance(0.5) ? "-1* " : "1* ") + g.pick(SETS) + ") ;";
	case 21: return "SETCHILD " + T + ctxs(g, o, 0, 1) + " TO (1* " + g.pick(SETS) + ") ;";
	case 22: return "SWITCHPARENT " + T + ctxs(g, o, 0, 1) + " ;";
	case 25: return "ADDRELATION (rel" + std::to_string(g.below(3)) + ") " + T + " TO (" + (o.spans && g.chance(0.4) ? "*-1W " : "*-1 ") + g.pick(SETS) + ") ;";
	case 26: return "ADDRELATIONS (ra) (rb) " + T + " TO (1* " + g.pick(SETS) + ") ;";
	case 27: return std::string(g.chance(0.5) ? "SETRELATION" : "REMRELATION") + " (rel0) " + T + " TO (*-1 " + g.pick(SETS) + ") ;";
	case 30: return "ADDCOHORT (\"<add" + std::to_string(idx) + ">\" \"add\" X" + t2 + ") " + (g.chance(0.5) ? "BEFORE " : "AFTER ") + T + " (NOT -1 (X" + t2 + ")) (NOT 1 (X" + t2 + ")) ;";
	case 31: return "REMCOHORT " + T + ctxs(g, o, 1, 2) + " ;";
	case 32: return "SWITCH " + T + " WITH (1 " + g.pick(SETS) + ") ;";
	case 33: return "MOVE " + T + (g.chance(0.5) ? " BEFORE" : " AFTER") + " (" + (g.chance(0.5) ? "-1* " : "1* ") + g.pick(SETS) + ") ;";
	case 34: return "MERGECOHORTS (\"<mrg" + std::to_string(idx) + ">\" \"mrg\" N) " + T + " WITH (1 " + g.pick(SETS) + " - (<<<)) ;";
	case 35: return "SPLITCOHORT (\"<sp1>\" \"sp1\" N \"<sp2>\" \"sp2\" V) (\"house\") (NOT 0 (\"sp1\")) ;";
	case 36: return "COPYCOHORT (cc" + t2 + ") EXCEPT (cc" + t2 + ") " + T + " - (cc" + t2 + ") TO AFTER (1 " + g.pick(SETS) + " - (cc" + t2 + ")) (NOT -1* (cc" + t2 + ")) (NOT 1* (cc" + t2 + ")) ;";
	case 37: return "REMCOHORT IGNORED " + T + ctxs(g, o, 1, 2) + " ;";
	case 40: return "SETVARIABLE (v" + std::to_string(g.below(4)) + ") (" + (g.chance(0.5) ? "*" : std::to_string(g.below(3))) + ") " + T + ctxs(g, o, 0, 1) + " ;";
	case 41: return "REMVARIABLE (v" + std::to_string(g.below(4)) + ") " + T + ctxs(g, o, 0, 1) + " ;";
	case 45: return "DELIMIT " + T + ctxs(g, o, 1, 2) + " ;";
	case 50: return "WITH " + T + " IF (1* " + g.pick(SETS) + ") { ADD (" + tag + ") (*) ; ADD (@c" + std::to_string(idx) + ") (*) (1* _C1_) ; } ;";
	case 55: return "SELECT $$NUM" + std::string(" (1 $$NUM) ;");
	case 56: return "ADD (VSTR:@u$1) (\"(d.*)\"r)" + ctxs(g, o, 0, 1) + " ;";
	}
	return "";
}
std::vector<Op> gen_grammar(Rng& g, const GramOpts& o) {
	std::vector<Op> v;
	auto line = [&](const std::string& s) { v.push_back(Op("g", s)); };
	line("DELIMITERS = \"<$.>\" \"<$!>\" \"<$?>\" \"<.>\" ;");
	if (o.soft) { line("SOFT-DELIMITERS = \"<$,>\" \"<,>\" ;"); }
	line("LIST N = N ; LIST V = V ; LIST A = A ; LIST D = D ; LIST P = P ; LIST ADV = ADV ; LIST PRON = PRON ; LIST NOM = Nom Acc ; LIST Hum = <hum> \"lion\" ; LIST Word = \"word\" \"house\" (\"dog\" Pl) ; LIST NUM = Sg Pl ;");
	line("SET NV = N OR V ; SET NotN = (*) - N ;");
	if (o.magic && g.chance(0.5)) { line("BEFORE-SECTIONS"); line(rule(g, o, 90)); }
	line("SECTION");
	int n = static_cast<int>(g.range(o.min_rules, o.max_rules));
	for (int i = 0; i < n; ++i) {
		if (i && g.chance(0.1)) { line("SECTION"); }
		line(rule(g, o, i));
	}
	if (o.external) { line("EXTERNAL " + std::string(g.chance(0.5) ? "ONCE" : "ALWAYS") + " extprog " + (g.chance(0.5) ? "(*)" : g.pick(SETS)) + " ;"); }
	if (o.magic && g.chance(0.5)) { line("AFTER-SECTIONS"); line(rule(g, o, 91)); line(rule(g, o, 92)); }
	return v;
}
std::string grammar_text(const Scenario& sc) {
	std::string s;
	for (auto& o : sc.ops) { if (o.kind == "g") { s += o.s(0) + "\n"; } }
	return s;
}
std::vector<std::string> gen_cli(Rng& g) {
	std::vector<std::string> a;
	auto n = [](int64_t x) { return std::to_string(x); };
	if (g.chance(0.3)) { a.push_back("-t"); }
	if (g.chance(0.25)) { a.push_back("--num-windows"); a.push_back(n(g.range(1, 4))); }
	if (g.chance(0.2)) { a.push_back("--soft-limit"); a.push_back(n(g.range(2, 8))); }
	if (g.chance(0.2)) { a.push_back("--hard-limit"); a.push_back(n(g.range(2, 12))); }
	if (g.chance(0.15)) { a.push_back("--always-span"); }
	if (g.chance(0.1)) { a.push_back("--single-run"); }
	if (g.chance(0.1)) { a.push_back("--no-pass-origin"); }
	if (g.chance(0.1)) { a.push_back("--ordered"); }
	if (g.chance(0.1)) { a.push_back("--split-mappings"); }
	if (g.chance(0.1)) { a.push_back("--unique-tags"); }
	return a;
}

// ------------------------------------------------------------------ corpus ---
static std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static std::vector<CorpusItem> load(const std::string& sub) {
	std::vector<CorpusItem> v;
	std::string base = std::string(VERIF_DIR) + "/corpus/" + sub;
	std::vector<std::string> names;
	if (DIR* d = opendir(base.c_str())) {
		while (auto e = readdir(d)) { if (e->d_name[0] != '.') { names.push_back(e->d_name); } }
		closedir(d);
	}
	std::sort(names.begin(), names.end());
	for (auto& n : names) {
		CorpusItem c;
		c.name = n;
		c.dir = base + "/" + n;
		c.grammar = slurp(c.dir + "/grammar.cg3");
		c.input = slurp(c.dir + "/input.txt");
		c.args = words(slurp(c.dir + "/args.txt"));
		if (!c.grammar.empty() && !c.input.empty()) { v.push_back(c); }
	}
	return v;
}
const std::vector<CorpusItem>& corpus_cg() { static auto v = load("cg"); return v; }
const std::vector<CorpusItem>& corpus_ap() { static auto v = load("ap"); return v; }

// ------------------------------------------------------------------ chunks ---
std::string gen_chunks(Rng& g) {
	switch (g.below(5)) {
	case 0: return "1";
	case 1: return std::to_string(1 + g.below(9));
	case 2: return std::to_string(1000 + g.below(60));
	}
	std::string s;
	size_t n = 1 + g.below(8);
	for (size_t i = 0; i < n; ++i) { s += (i ? "," : "") + std::to_string(g.chance(0.5) ? 1 + g.below(4) : g.chance(0.7) ? 1 + g.below(80) : 1 + g.below(2000)); }
	return s;
}
std::vector<uint32_t> parse_chunks(const std::string& s) {
	std::vector<uint32_t> v;
	std::stringstream ss(s);
	std::string w;
	while (std::getline(ss, w, ',')) { auto n = strtoul(w.c_str(), nullptr, 10); v.push_back(static_cast<uint32_t>(n ? n : 1)); }
	return v;
}
void vary_env(Rng& g, RunSpec& s) {
	s.alloc_seed = g.next();
	s.rand_seed = g.next();
	s.alloc_policy = static_cast<uint32_t>(g.below(4));
	static const uint32_t fills[] = {0, 0xA5, 0xFF, 0x01, 256};
	s.alloc_fill = fills[g.below(5)];
	s.stack_fill = fills[g.below(4)];
	s.epoch = g.range(0, 4000000000ll);
}
} // namespace sim
