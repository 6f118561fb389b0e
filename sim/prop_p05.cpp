// P05: input that ends or breaks anywhere ends the run cleanly.
#include "workload.hpp"
#include <algorithm>
namespace sim {
static const std::vector<std::string> NASTY = {
	"\"<", ">\"", "\"", "<", ">", "\t", "\n", "\n\n", " ", "\\", "^", "$", "/", "[", "]", "[[", "]]", "{", "}", "+", "*", "|", "@", "#", "#1->", "#1->2", "#1->99999999999", "->", "ID:", "ID:5", "R:", "R:a:", "R:a:7", "<W:", "<W:>", "<W:99999999999999999999999>", ":",
	"\xff", "\xc3", "\xe2\x82", "\xf0\x9d", "\xf8\x88\x80\x80\x80", "\xed\xa0\x80", "\xef\xbb\xbf", "\xc2\x85", "\xe2\x80\xa8", std::string(1, '\0'), std::string("\0\0\0\0", 4), "\r", "\r\n", "\x1b", "\x7f",
	"<STREAMCMD:", "<STREAMCMD:FLUSH", "<STREAMCMD:SETVAR:>", "<STREAMCMD:SETVAR:=>", "<STREAMCMD:SETVAR:a=b=c,,d>", "<STREAMCMD:REMVAR:>", "<STREAMCMD:BOGUS>", "<STREAMCMD:IGNORE>\n", "<STREAMCMD:FLUSH>\n", "\"<>\"\n", "\"<>\"\n\t\"\"\n", "\t\"x\"\n", "\t\t\t\t\"x\" N\n", "; \t\"x\" N\n", ";", "\"<a>\"\n;\t\"b\" N\n",
	"{\"w\":", "{\"w\":1}\n", "{\"rs\":{}}\n", "{\"w\":\"a\",\"rs\":[1,{}]}\n", "{\"cmd\":1}\n", "{\"t\":null}\n", "[]\n", "null\n", "{\"w\":\"a\",\"rs\":[{\"l\":\"a\",\"ts\":[1,\"\"]}]}\n", "{\"w\":\"a\",\"rs\":[{\"l\":\"a\",\"s\":{\"s\":1}}]}\n", "\\u0000", "\\ud800", "{\"w\":\"\",\"rs\":[{\"l\":\"\"}]}\n", "{\"w\":\"a\",\"ds\":-1,\"dp\":99999999999}\n",
	"\x00\x00\x00\x80", "\xff\xff\xff\xff", "\xff\xff", "CGBF", "\x01", "\x02", "\x03", "\x7f\xff\xff\xff",
};
static Scenario gen(uint64_t seed, bool thorough) {
	Rng g(seed);
	Scenario sc;
	StreamOpts o;
	o.max_coh = thorough ? 40 : 14;
	o.p_long = g.chance(0.2) ? 0.12 : 0.01;
	o.identity = g.chance(0.4);
	gen_stream(g, sc, o);
	bool ident = sc.gets("tool") == "cg-conv";
	for (auto& x : sc.ops) { if (x.kind == "g" && x.s(0).find("nosuchtag") != std::string::npos) { ident = o.identity; } } // a corpus grammar is not
	if (ident) { sc.set("ident", 1); }
	int64_t at = g.range(0, 1000000);
	if (g.chance(0.15)) { at = g.chance(0.5) ? g.range(0, 20000) : g.range(980000, 1000000); }
	if (sc.gets("ifmt") == "binary" && g.chance(0.5)) {
		int n = g.chance(0.7) ? 1 : 2;
		for (int i = 0; i < n; ++i) {
			if (g.chance(0.6)) { sc.ops.push_back(Op("pk", at, g.chance(0.6) ? g.range(1, 3) : g.range(1, 80))); }
			else { sc.ops.push_back(Op("inc", at, g.pick(std::vector<int64_t>{1, 1, -1, 2, 3, 5, 127}))); }
			at = g.range(at, 1000000);
		}
	}
	else if (g.chance(0.4)) { sc.ops.push_back(Op(g.chance(0.7) ? "cut" : "err", at)); }
	else {
		int n = g.chance(0.7) ? 1 : static_cast<int>(g.range(2, 6));
		for (int i = 0; i < n; ++i) {
			switch (g.below(6)) {
			case 0: sc.ops.push_back(Op("flip", at, g.below(256))); break;
			case 1: sc.ops.push_back(Op("del", at, g.chance(0.5) ? 1 : g.range(1, 60))); break;
			case 2: sc.ops.push_back(Op("dup", at, g.range(1, 80))); break;
			case 3: sc.ops.push_back(Op("ins", at, g.pick(NASTY), g.chance(0.9) ? 1 : g.range(2, 3000))); break;
			case 4: sc.ops.push_back(Op("ins", at, g.pick(NASTY), 1)); break;
			case 5: sc.ops.push_back(Op("set", at, g.pick(NASTY))); break;
			}
			at = g.range(at, 1000000);
		}
		if (g.chance(0.2)) { sc.ops.push_back(Op(g.chance(0.7) ? "cut" : "err", at)); }
	}
	if (g.chance(0.3)) { sc.ops.push_back(Op("deliver", gen_chunks(g))); }
	if (g.chance(0.5)) { sc.set("guard", 1); }
	return sc;
}
// takes k bytes off the end of the binary packet around p, which remains a packet of the length it says
static size_t shorten_packet(std::string& in, size_t p, size_t k) {
	size_t at = 8;
	while (at + 5 < in.size()) {
		auto b = [&](size_t i) { return static_cast<size_t>(static_cast<unsigned char>(in[i])); };
		size_t len = 2;
		if (b(at) == 3 || b(at) > 3) { len = 3 + b(at + 1) + (b(at + 2) << 8); }
		else if (b(at) == 1) {
			size_t cs = b(at + 1) + (b(at + 2) << 8) + (b(at + 3) << 16) + (b(at + 4) << 24);
			len = 5 + cs;
			if (at + len > in.size()) { break; }
			if (p < at + len) {
				k = std::min(k, cs);
				in.erase(at + len - k, k);
				cs -= k;
				for (size_t i = 0; i < 4; ++i) { in[at + 1 + i] = static_cast<char>(cs >> (8 * i)); }
				return at;
			}
		}
		at += len;
	}
	return in.size();
}
static Verdict exec(const Scenario& sc) {
	Verdict v;
	auto w = build_stream(sc);
	if (!w.ok || w.spec.in.size() < 2) { v.trivial = true; return v; }
	std::string tag = w.spec.tool + ":" + sc.gets("ifmt") + ">" + sc.gets("ofmt");
	RunSpec s = w.spec;
	const std::string& full = w.spec.in;
	size_t first = full.size();
	// positions are relative to the undamaged stream; apply from the back
	std::vector<const Op*> dm;
	for (auto& o : sc.ops) {
		for (auto k : {"cut", "err", "flip", "del", "dup", "ins", "set", "inc", "pk"}) { if (o.kind == k) { dm.push_back(&o); } }
		if (o.kind == "deliver") { s.chunks = parse_chunks(o.s(0)); }
	}
	if (dm.empty()) { v.trivial = true; return v; }
	auto posof = [&](const Op& o) { return std::min<size_t>(full.size(), static_cast<size_t>(o.i(0)) * (full.size() + 1) / 1000001); };
	std::stable_sort(dm.begin(), dm.end(), [&](auto a, auto b) { return a->i(0) < b->i(0); });
	for (size_t i = dm.size(); i-- > 0;) {
		auto& o = *dm[i];
		size_t p = posof(o);
		first = std::min(first, p);
		if (p > s.in.size()) { p = s.in.size(); }
		if (o.kind == "cut" || o.kind == "err") { s.in.resize(p); s.in_error_at_end = s.in_error_at_end || o.kind == "err"; }
		else if (o.kind == "flip") { if (p < s.in.size()) { s.in[p] = static_cast<char>(s.in[p] ^ (o.i(1) ? o.i(1) : 1)); } }
		else if (o.kind == "inc") { if (p < s.in.size()) { s.in[p] = static_cast<char>(s.in[p] + o.i(1)); } }
		else if (o.kind == "pk") { first = std::min(first, shorten_packet(s.in, p, static_cast<size_t>(o.i(1)))); }
		else if (o.kind == "del") { s.in.erase(p, static_cast<size_t>(o.i(1))); }
		else if (o.kind == "dup") { s.in.insert(p, s.in.substr(p, static_cast<size_t>(o.i(1)))); }
		else if (o.kind == "ins") { std::string x; for (int64_t k = 0; k < o.i(2, 1); ++k) { x += o.s(1); } s.in.insert(p, x); }
		else if (o.kind == "set") { s.in.replace(p, std::min(o.s(1).size(), s.in.size() - p), o.s(1)); }
		stat("fault.input_" + o.kind);
	}
	auto r = run(s);
	v.absorb(r);
	if (r.kind == Kind::Hang) {
		// a grammar may loop by itself; the stream handling may not
		auto strip = [&](RunSpec q) {
			Scenario t = sc;
			t.ops.clear();
			for (auto& o : sc.ops) { if (o.kind != "g" || o.s(0).compare(0, 10, "DELIMITERS") == 0 || o.s(0).compare(0, 15, "SOFT-DELIMITERS") == 0) { t.ops.push_back(o); } if (o.kind == "g" && o.s(0).compare(0, 15, "SOFT-DELIMITERS") != 0 && o.s(0).compare(0, 10, "DELIMITERS") == 0) { t.ops.push_back(Op("g", "SECTION")); } }
			t.ops.push_back(Op("g", "SECTION"));
			t.ops.push_back(Op("g", "REMOVE (nosuchtag) ;"));
			auto w2 = build_stream(t);
			RunSpec x = w2.spec;
			x.in = q.in;
			x.in_error_at_end = q.in_error_at_end;
			x.chunks = q.chunks;
			return run(x);
		};
		if (!sc.geti("ident") && strip(s).kind != Kind::Hang) { v.trivial = true; stat("p05.grammar_loops"); return v; }
		v.fail("hang:" + tag, "does not end: " + describe(r));
		return v;
	}
	if (crashed(r)) { v.fail("crash:" + tag, describe(r)); return v; }
	stat("p05.exit." + std::to_string(r.code != 0));
	if (r.code != 0 && r.err.empty()) { v.fail("silent-error:" + tag, "status " + r.verdict() + " without any diagnostics"); }
	// what was complete before the damage
	std::string ifmt = sc.gets("ifmt", "cg");
	size_t fl = 0, bd = 0, plain = 0;
	bool exited = false;
	std::vector<Op> pre;
	const Op* prev = nullptr;
	size_t prev_end = 0;
	bool has_deps = false, cmds = false;
	for (auto& o : sc.ops) {
		if (!is_doc_op(o) && o.kind != "raw") { continue; }
		if (exited) { break; }
		if (ifmt == "binary") { break; }
		std::string b = o.kind == "raw" ? o.s(0) : ser_op(o, fmt_from(ifmt));
		if (b.find("->") != std::string::npos || b.find("R:") != std::string::npos || b.find("ID:") != std::string::npos) { has_deps = true; }
		if (o.kind == "k" && o.s(0) == "EXIT") { exited = true; }
		if (o.kind == "k" && o.s(0) != "FLUSH") { cmds = true; }
		// a delimiter cohort followed by another complete cohort
		if (prev && prev->kind == "c" && o.kind == "c" && plain + b.size() <= first && (prev->s(1)[0] == '$' || prev->s(1) == ".") && prev->s(1) != "$,") { bd = prev_end; }
		plain += b.size();
		if (plain > first) { break; }
		if ((o.kind == "k" && o.s(0) == "FLUSH") || (o.kind == "raw" && (o.s(0) == "<STREAMCMD:FLUSH>\n" || o.s(0) == std::string(1, '\0')))) { fl = plain; }
		prev = &o;
		prev_end = plain;
	}
	for (auto& o : sc.ops) { if (o.kind == "c") { for (auto& a : o.a) { if (a.find("->") != std::string::npos || a.find("ID:") != std::string::npos) { has_deps = true; } } } }
	for (auto k : {"STREAMCMD:IGNORE", "STREAMCMD:RESUME", "STREAMCMD:EXIT", "STREAMCMD:SETVAR", "STREAMCMD:REMVAR"}) { if (s.in.find(k) != std::string::npos) { cmds = true; } } // these are passed on at once
	std::string ofmt = sc.gets("ofmt", "cg");
	if (fl && !has_deps) {
		RunSpec p = w.spec;
		p.stops = {fl};
		auto ref = run(p);
		v.absorb(ref);
		if (ref.waits.size() == 1 && !crashed(ref)) {
			std::string vis = ref.out.substr(0, ref.waits[0].out);
			stat("p05.flush_checks");
			if (r.out.compare(0, vis.size(), vis) != 0) { v.fail("lost-answer:" + tag, "damage at byte " + std::to_string(first) + " changes or loses what was flushed at byte " + std::to_string(fl) + ": " + diff_summary(r.out, vis) + " [" + r.verdict() + " " + esc(r.err.substr(0, 200)) + "]"); }
		}
	}
	bool blocks = ofmt == "matxin" || ofmt == "binary" || (w.spec.tool == "cg-proc" && sc.geti("pf", 1) >= 2);
	bool soft = false; // where such a window ends depends on what follows
	for (auto& o : sc.ops) { if ((o.kind == "g" && o.s(0).find("SOFT-DELIMITERS") != std::string::npos) || (o.kind == "arg" && o.s(0).find("limit") != std::string::npos)) { soft = true; } }
	if (bd && !soft && sc.geti("ident") && !has_deps && !cmds && r.ok() && !blocks && !sc.geti("auto")) {
		RunSpec p = w.spec;
		p.in = full.substr(0, bd);
		auto ref = run(p);
		v.absorb(ref);
		if (ref.ok()) {
			std::string vis = ref.out;
			while (!vis.empty() && isspace(static_cast<unsigned char>(vis.back()))) { vis.pop_back(); }
			stat("p05.window_checks");
			if (r.out.compare(0, vis.size(), vis) != 0) { v.fail("lost-window:" + tag, "damage at byte " + std::to_string(first) + " changes or loses the windows complete at byte " + std::to_string(bd) + ": " + diff_summary(r.out, vis)); }
		}
	}
	return v;
}
static Register r5({"P05", gen, exec});
} // namespace sim
