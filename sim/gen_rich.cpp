// Grammars that use as much of the rule language as possible (every field of the binary format).
#include "workload.hpp"
namespace sim {
static const std::vector<std::string> RSETS = {"N", "V", "A", "D", "NV", "NotN", "Hum", "Word", "(*)", "(N Sg)", "(\"the\")", "(\"dog\" N)", "(<W>20>)", "(<W<=5>)", "(<W=MAX>)", "(<W=MIN>)", "(<W!=12>)", "(\".*o.*\"r)", "(\"<The>\"i)", "(\"<.*a.*>\"ri)", "XOR", "CAP", "FF", "DIFF", "Uni", "$$NUM", "&&Uni", "(^V)", "(^\"the\")", "(N) + (Sg)", "N - (Sg)", "N ^ (Pl)", "(VAR:v1)", "(VAR:v0=2)", "(VAR:/v.*/r)", "(VSTR:$1)", "BigSet", "Nest", "Q", "(\"house\"i)", "(/[NV]/r)", "(\"a\\\"b\")", "été", "_MARK_", "_TARGET_", "_ATTACHTO_", "(>>>)", "(<<<)", "_PAREN_", "_ENCL_", "_SAME_BASIC_", "(*) - NV"};
static const std::vector<std::string> RPOS = {"-1", "1", "0", "-2", "3", "*-1", "*1", "-1*", "1*", "@1", "@-1", "**-1", "**1", "0*", "-1C", "1C", "*1C", "*1CW", "*-1W", "1W", "*1<", "*-1<", "*1>", "*1O", "*-1o", "0S", "1*A", "-1X", "0x", "*1x", "1D", "1d", "1I", "*1D", "1N", "*1N", "1?", "1f", "1T", "1t", "*1BW", "BW", "1L", "1R", "1w", "p", "c", "s", "cc", "pp", "p*", "c*", "ll", "rr", "l", "r", "lll", "rrr", "cS", "ccS", "pC", "r:rel0", "r:*", "r:rel1", "lr:rel0", "llr:*", "Sr:rel2", "jM", "jA", "jT", "jC1", "0/1", "1/-1", "0/*", "1/**", "0/-1", "pW", "r:rel0S", "Ar:*", "Ar:rel0"};
static std::string rctx(Rng& g, int depth = 0);
static std::string rctxbody(Rng& g, int depth) {
	std::string s;
	if (g.chance(0.08)) { return "T:" + std::string(g.chance(0.5) ? "tmpl1" : "tmpl2") + (depth < 2 && g.chance(0.2) ? " LINK " + rctxbody(g, depth + 1) : ""); }
	if (g.chance(0.04)) { return g.pick(std::vector<std::string>{"-1", "*1", "*-1", "jM", "jT", "jA", "p", "r:rel0"}) + " T:tmpl1"; }
	if (g.chance(0.15)) { s += g.pick(std::vector<std::string>{"NOT ", "NEGATE ", "ALL ", "NONE "}); }
	if (depth < 1 && g.chance(0.06)) { return s + "(" + rctx(g, depth + 1) + " OR " + rctx(g, depth + 1) + (g.chance(0.3) ? " OR " + rctx(g, depth + 1) : "") + ")"; }
	s += g.pick(RPOS) + " " + g.pick(RSETS);
	bool scan = s.find('*') != std::string::npos;
	if (scan && g.chance(0.12)) { s += " CBARRIER " + g.pick(RSETS); }
	if (scan && g.chance(0.2)) { s += " BARRIER " + g.pick(RSETS); }
	if (depth < 2 && g.chance(0.2)) { s += std::string(" LINK ") + rctxbody(g, depth + 1); }
	return s;
}
static std::string rctx(Rng& g, int depth) { return "(" + rctxbody(g, depth) + ")"; }
static std::string rctxs(Rng& g, int lo, int hi) {
	std::string s;
	int n = static_cast<int>(g.range(lo, hi));
	for (int i = 0; i < n; ++i) { s += " " + rctx(g); }
	return s;
}
static std::string flags(Rng& g, bool map) {
	static const std::vector<std::string> F = {"DELAYED", "IMMEDIATE", "LOOKDELETED", "LOOKDELAYED", "UNSAFE", "SAFE", "REMEMBERX", "RESETX", "KEEPORDER", "VARYORDER", "ENCL_INNER", "ENCL_OUTER", "ENCL_FINAL", "ENCL_ANY", "ITERATE", "NOITERATE", "UNMAPLAST", "REVERSE", "SUB:1", "SUB:-1", "SUB:*", "OUTPUT", "CAPTURE_UNIF", "LOOKIGNORED", "IGNORED", "IGNORED", "NOMAPPED", "NOPARENT", "ALLOWLOOP", "ALLOWCROSS", "NEAREST"};
	std::string s;
	while (g.chance(0.25)) { s += " " + g.pick(F); }
	(void)map;
	return s;
}
static std::string rrule(Rng& g, int i, int depth = 0) {
	std::string id = std::to_string(i), name = g.chance(0.3) ? ":r_" + std::string(g.chance(0.2) ? "é" : "") + id : "", wf = g.chance(0.12) ? g.pick(std::vector<std::string>{"\"<the>\" ", "\"<dog>\" ", "\"<été>\" ", "\"<The>\"i ", "\"<.*o.*>\"r "}) : "";
	std::string T = g.pick(RSETS);
	if (g.chance(0.15)) { T += " IF"; }
	auto F = [&](const std::string& k, bool map = false) { return wf + k + name + flags(g, map) + " "; };
	switch (g.below(depth ? 16 : 34)) {
	case 0: case 1: return F("SELECT") + T + rctxs(g, 0, 3) + " ;";
	case 2: case 3: return F("REMOVE") + T + rctxs(g, 1, 3) + " ;";
	case 4: return F("IFF") + T + rctxs(g, 1, 2) + " ;";
	case 5: return F("MAP") + "(@r" + id + (g.chance(0.3) ? " @s" : "") + ") " + T + rctxs(g, 0, 2) + " ;";
	case 6: return F("ADD") + std::string(g.chance(0.2) ? "(*1 x) " : "(@r" + id + ") ") + (g.chance(0.15) ? "BEFORE (Sg) " : g.chance(0.15) ? "AFTER (N) " : "") + T + rctxs(g, 0, 2) + " ;";
	case 7: return F("REPLACE") + "(\"rep\" t" + id + ") " + T + rctxs(g, 1, 2) + " ;";
	case 8: return F("SUBSTITUTE") + "(Sg) (t" + id + " VSTR:$1x) " + T + rctxs(g, 0, 2) + " ;";
	case 9: return F("APPEND") + "(\"app\" t" + id + " N) " + T + rctxs(g, 1, 2) + " ;";
	case 10: return F("COPY") + "(cp" + id + ") EXCEPT (cp" + id + ") " + T + rctxs(g, 1, 2) + " ;";
	case 11: return F("PROTECT") + T + rctxs(g, 0, 1) + " ;";
	case 12: return F("UNMAP") + T + rctxs(g, 0, 1) + " ;";
	case 13: return F("RESTORE") + T + rctxs(g, 0, 1) + " ;";
	case 14: return F("UNPROTECT") + T + rctxs(g, 0, 1) + " ;";
	case 15: return F("ADD") + "(VSTR:@u$1$2 VSTR:{NUM}) (\"(d.*)\"r)" + rctxs(g, 0, 1) + " ;";
	case 16: return F("SETPARENT") + T + rctxs(g, 0, 1) + std::string(g.chance(0.3) ? " FROM " : " TO ") + rctx(g) + (g.chance(0.2) ? " " + rctx(g) : "") + " ;";
	case 17: return F("SETCHILD") + T + rctxs(g, 0, 1) + " TO " + rctx(g) + " ;";
	case 18: return F("SWITCHPARENT") + T + rctxs(g, 0, 1) + " ;";
	case 19: return F("ADDRELATION") + "(rel" + std::to_string(g.below(3)) + ") " + T + rctxs(g, 0, 1) + " TO " + rctx(g) + " ;";
	case 20: return F("ADDRELATIONS") + "(ra) (rb) " + T + " TO " + rctx(g) + " ;";
	case 21: return F(g.chance(0.5) ? "SETRELATION" : "REMRELATION") + "(rel0) " + T + " TO " + rctx(g) + " ;";
	case 22: return F("ADDCOHORT") + "(\"<add" + id + ">\" \"add\" Xt) " + (g.chance(0.5) ? "BEFORE " : "AFTER ") + T + " (NOT -1 (Xt)) (NOT 1 (Xt)) ;";
	case 23: return F("REMCOHORT") + (g.chance(0.3) ? "IGNORED " : "") + T + rctxs(g, 1, 2) + " ;";
	case 24: return F("SWITCH") + T + " WITH " + rctx(g) + " ;";
	case 25: return F("MOVE") + (g.chance(0.2) ? "WITHCHILD (*) " : g.chance(0.2) ? "NOCHILD " : "") + T + (g.chance(0.5) ? " BEFORE " : " AFTER ") + (g.chance(0.2) ? "WITHCHILD (V) " : "") + rctx(g) + " ;";
	case 26: return F("MERGECOHORTS") + "(\"<mrg" + id + ">\" \"mrg\" N) " + T + " WITH (1 " + g.pick(RSETS) + ") ;";
	case 27: return F("SPLITCOHORT") + "(\"<sp1>\" \"sp1\" N " + (g.chance(0.5) ? "c->p " : "") + "\"<sp2>\" \"sp2\" V" + (g.chance(0.4) ? " 2->1" : "") + ") (\"house\") (NOT 0 (\"sp1\")) ;";
	case 28: return F("COPYCOHORT") + "(cc" + id + ") EXCEPT (ccx) " + T + " TO AFTER (1 " + g.pick(RSETS) + ") (NOT -1* (cc" + id + ")) (NOT 1* (cc" + id + ")) ;";
	case 29: return F("SETVARIABLE") + "(v" + std::to_string(g.below(3)) + ") (" + (g.chance(0.5) ? "*" : std::to_string(g.below(3))) + ") " + T + rctxs(g, 0, 1) + " ;";
	case 30: return F("REMVARIABLE") + "(v" + std::to_string(g.below(3)) + ") " + T + rctxs(g, 0, 1) + " ;";
	case 31: return F("DELIMIT") + T + rctxs(g, 1, 2) + " ;";
	case 32: { std::string s = F("WITH") + T + rctxs(g, 1, 2) + " { " + rrule(g, i * 10 + 1, 1); if (g.chance(0.5)) { s += " " + rrule(g, i * 10 + 2, 1); } return s + " ADD (@w" + id + ") (*) (jC1 (*)) ; } ;"; }
	case 33: return g.chance(0.5) ? "JUMP (anc) " + T + rctxs(g, 1, 2) + " ;" : g.chance(0.5) ? F("ADDRELATION") + "(VSTR:r$1) (\"(.).*\"r) TO " + rctx(g) + " ;" : F("EXECUTE") + "(anc) (anc2) " + T + rctxs(g, 1, 2) + " ;";
	}
	return "";
}
std::vector<Op> gen_rich(Rng& g, int max_rules) {
	std::vector<Op> v;
	auto line = [&](const std::string& s) { v.push_back(Op("g", s)); };
	line("DELIMITERS = \"<$.>\" \"<$!>\" \"<$?>\" \"<.>\" ;");
	auto some = [&](double p, const std::string& s) { if (g.chance(p)) { line(s); } };
	some(0.5, "SOFT-DELIMITERS = \"<$,>\" \"<,>\" ;");
	some(0.2, "TEXT-DELIMITERS = /(^|\\n)<\\/p/r ;");
	some(0.15, "MAPPING-PREFIX = ¤ ;");
	some(0.2, "SUBREADINGS = LTR ;");
	some(0.15, "SUBREADINGS = RTL ;");
	some(0.2, "PREFERRED-TARGETS = N Sg \"the\" ;");
	some(0.2, "PARENTHESES = (\"<(>\" \"<)>\") (\"<[>\" \"<]>\") ;");
	some(0.15, "REOPEN-MAPPINGS = @r1 @s ;");
	some(0.15, "CMDARGS += --num-windows 3 ;");
	some(0.1, "CMDARGS-OVERRIDE += --soft-limit 6 ;");
	some(0.1, "OPTIONS += no-inline-templates ;");
	some(0.1, "OPTIONS += safe-setparent ;");
	some(0.1, "OPTIONS += addcohort-attach ;");
	some(0.1, "OPTIONS += ordered ;");
	some(0.1, "OPTIONS += self-no-barrier ;");
	some(0.1, "STATIC-SETS = N V ;");
	some(0.02, "STRICT-TAGS += N V A D P Sg Pl Nom Acc ADV PRON Hum ;");
	line("LIST N = N ; LIST V = V ; LIST A = A ; LIST D = D ; LIST Hum = <hum> \"lion\" ; LIST Word = \"word\" \"house\" (\"dog\" Pl) ; LIST NUM = Sg Pl Nom Acc ; LIST été = \"été\" Ñ ;");
	line("LIST BigSet = a b c d e f g h (N Sg a) (N Sg b) (N Pl c) \"été\" \"the\" \"dog\"i \"h.*\"r ; LIST Q = Q ; LIST CAP = \"<[A-Z].*>\"r ; LIST FF = (N t:1 \"dog\") F ;");
	line("SET NV = N OR V ; SET NotN = (*) - N ; SET XOR = N ∆ NUM ; SET DIFF = NV \\ (Sg) ; SET Uni = N OR V OR A ; SET Nest1 = Word - Hum ; SET Nest2 = D ^ N ; SET Nest = NV + NUM OR Nest1 OR Nest2 ;");
	line("TEMPLATE tmpl1 = 1 (N) LINK 1 V ; TEMPLATE tmpl2 = (-1 (N)) OR (1 V LINK 1 D) OR (0 (A)) ;");
	some(0.3, "BEFORE-SECTIONS");
	if (v.back().s(0) == "BEFORE-SECTIONS") { line(rrule(g, 90)); }
	line("SECTION");
	line("ANCHOR anc ;");
	int n = static_cast<int>(g.range(1, max_rules));
	for (int i = 0; i < n; ++i) {
		if (i && g.chance(0.12)) { line(g.chance(0.3) ? "CONSTRAINTS" : g.chance(0.3) ? "MAPPINGS" : "SECTION"); }
		line(rrule(g, i));
	}
	line("ANCHOR anc2 ;");
	some(0.3, "AFTER-SECTIONS");
	if (v.back().s(0) == "AFTER-SECTIONS") { line(rrule(g, 91)); line(rrule(g, 92)); }
	some(0.15, "NULL-SECTION");
	if (v.back().s(0) == "NULL-SECTION") { line(rrule(g, 93)); }
	return v;
}
// A grammar that does much of only a few things
std::vector<Op> gen_focus(Rng& g) {
	std::vector<Op> v;
	auto line = [&](const std::string& s) { v.push_back(Op("g", s)); };
	line("DELIMITERS = \"<$.>\" \"<$!>\" \"<$?>\" \"<.>\" ;");
	if (g.chance(0.2)) { line("SUBREADINGS = LTR ;"); }
	if (g.chance(0.2)) { line("PARENTHESES = (\"<(>\" \"<)>\") (\"<[>\" \"<]>\") ;"); }
	line("LIST N = N ; LIST V = V ; LIST A = A ; LIST D = D ; LIST Hum = <hum> \"lion\" ; LIST NUM = Sg Pl Nom Acc ; SET NV = N OR V ;");
	line("SECTION");
	static const std::vector<std::string> S = {"N", "V", "A", "D", "NV", "(*)", "(*)", "NUM", "$$NUM", "(<W=MAX>)", "(\".*o.*\"r)", "(VSTR:$1)"};
	std::vector<std::string> P = {g.pick(RPOS), g.pick(RPOS)};
	if (g.chance(0.4)) { P[0] = g.pick(std::vector<std::string>{"r:rel0", "r:*", "lr:rel0", "lr:rel1", "lr:*", "llr:*", "llr:rel1", "Sr:*", "Ar:*", "Ar:rel0", "Alr:*", "SAr:rel1"}); }
	auto ctx = [&]() { return "(" + g.pick(P) + " " + g.pick(S) + (g.chance(0.2) ? " LINK " + g.pick(P) + " " + g.pick(S) : "") + ")"; };
	int k = static_cast<int>(g.below(7));
	for (int i = static_cast<int>(g.range(2, 7)); i > 0; --i) {
		std::string id = std::to_string(i);
		switch (g.chance(0.7) ? k : static_cast<int>(g.below(9))) {
		default: line("ADD (@f" + id + ") " + g.pick(S) + " " + ctx() + " ;"); break;
		case 1: line("MAP (@f" + id + " @g) " + g.pick(S) + " " + ctx() + " ;"); break;
		case 2: line("SUBSTITUTE (Sg) (t" + id + " VSTR:$1x) " + g.pick(S) + " " + ctx() + " ;"); break;
		case 3: line("ADDRELATION (rel" + std::to_string(g.below(3)) + ") " + g.pick(S) + " TO " + ctx() + " ;"); break;
		case 4: line("SETPARENT " + g.pick(S) + " TO " + ctx() + " ;"); break;
		case 5: line("COPY (cp" + id + ") EXCEPT (cp" + id + ") " + g.pick(S) + " " + ctx() + " ;"); break;
		case 6: line("REMOVE " + g.pick(S) + " " + ctx() + " ;"); break;
		}
	}
	return v;
}
} // namespace sim
