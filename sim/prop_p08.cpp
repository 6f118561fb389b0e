// P08: EXTERNAL rules, with a simulated external program on bounded pipes.
#include "workload.hpp"
#include <algorithm>
namespace sim {
static Scenario gen(uint64_t seed, bool thorough) {
	Rng g(seed);
	Scenario sc;
	GramOpts o = random_gram_opts(g);
	o.vars = o.rels = o.deps = o.delim = o.external = o.cohorts = o.magic = o.spans = false;
	o.max_rules = 6;
	static const std::vector<std::string> MAGIC = {"BEFORE-SECTIONS", "AFTER-SECTIONS"};
	for (auto& x : gen_grammar(g, o)) { if (x.s(0).find("PROTECT") == std::string::npos && x.s(0).find("IGNORED") == std::string::npos && x.s(0).find("DELAYED") == std::string::npos) { sc.ops.push_back(x); } }
	static const std::vector<std::string> T = {"(*)", "(*)", "N", "V", "Word", "Hum", "NV", "NotN"}, P = {"extprog", "./ext-\xc3\xa6", "a/b.pl"};
	sc.set("pos", g.chance(0.5) ? "before" : "after");
	for (int64_t n = g.chance(0.7) ? 1 : g.range(2, 3); n > 0; --n) {
		sc.ops.push_back(Op("x", std::string("EXTERNAL ") + (g.chance(0.7) ? "ONCE " : "ALWAYS ") + g.pick(P) + " " + g.pick(T) + " ;"));
	}
	DocOpts d;
	d.max_coh = thorough ? 50 : 22;
	d.p_cmd = g.chance(0.2) ? 0.08 : 0;
	d.p_weird = 0.1;
	d.p_long = g.chance(0.2) ? 0.1 : 0.01;
	bool maps = g.chance(0.3);
	for (auto& x : gen_doc(g, d)) {
		if (x.kind == "c" && !maps) { Coh c; if (op_coh(x, c)) { for (auto& r : c.rs) { for (auto q = &r; q; q = q->subs.empty() ? nullptr : &q->subs[0]) { q->tags.erase(std::remove_if(q->tags.begin(), q->tags.end(), [](const std::string& t) { return t[0] == '@'; }), q->tags.end()); } } x = coh_op(c); } }
		if (x.kind != "k" || x.s(0) == "FLUSH") { sc.ops.push_back(x); }
	}
	if (g.chance(0.2)) { sc.ops.push_back(Op("arg", "--num-windows", std::to_string(g.below(4)))); }
	if (g.chance(0.2)) { sc.set("bin", 1); }
	static const std::vector<std::string> M = {"mixed", "mixed", "edit", "echo", "null", "wordform", "addtag"};
	sc.set("mode", g.pick(M));
	static const std::vector<int> caps = {1, 7, 64, 512, 4096, 65536};
	sc.set("cap", g.pick(caps));
	sc.set("partial", g.chance(0.6) ? 1 : 0);
	sc.set("pseed", static_cast<int64_t>(g.next() >> 2));
	static const std::vector<std::string> F = {"die_before", "die_after_read", "die_mid_reply", "wrong_window", "wrong_cohort", "extra_cohorts", "extra_readings", "huge_length",
		"fewer_cohorts", "fewer_readings", "fewer_declared", "bad_utf8", "bad_wordform", "cut_inside", "padded", "cohort_length", "flip", "flip", "close_mid", "fork", "pipe"};
	for (int64_t n = g.range(1, thorough ? 8 : 3); n > 0; --n) { sc.ops.push_back(Op("fault", g.pick(F), std::to_string(g.below(4)))); }
	return sc;
}
struct PC { uint32_t num = 0; std::string wf, text; bool has_text = false; struct R { uint32_t flags = 0; std::string base; std::vector<std::string> tags; }; std::vector<R> rs; };
using PW = std::vector<PC>;
struct Msg { int child = 0; bool reply = false, null = false; uint32_t win = 0; PW cs; };
static std::string canon(const PC& c) {
	std::string r = c.wf;
	std::set<std::string> seen; // the order of the readings is a matter of printing
	for (auto& x : c.rs) {
		if (x.flags & 2) { continue; }
		std::string y = x.base;
		std::set<std::string> tags; // and so are readings of the same tags
		for (auto& t : x.tags) { if (t != "<<<" && t != ">>>") { tags.insert(t); } }
		for (auto& t : tags) { y += " " + t; }
		seen.insert(y); // equal readings are printed once
	}
	for (auto& y : seen) { r += " | " + y; }
	return r;
}
static std::vector<std::string> canon(const PW& w) { std::vector<std::string> r; for (auto& c : w) { r.push_back(canon(c)); } return r; }
static std::string unesc_field(const std::string& s) { return unesc(s); }
static bool parse_msg(const std::string& n, Msg& m) {
	if (n.compare(0, 3, "EXT") != 0) { return false; }
	char* e;
	m.child = static_cast<int>(strtol(n.c_str() + 3, &e, 10));
	std::string t = e;
	m.reply = t.compare(0, 5, " rep ") == 0;
	if (!m.reply && t.compare(0, 5, " req ") != 0) { return false; }
	if (t == " rep null") { m.null = true; return true; }
	for (auto& f : words(t)) {
		auto val = [&](size_t k) { return f.substr(k); };
		if (f.compare(0, 2, "w=") == 0) { m.win = static_cast<uint32_t>(strtoul(f.c_str() + 2, nullptr, 10)); }
		else if (f == "C") { m.cs.emplace_back(); }
		else if (f == "R") { m.cs.back().rs.emplace_back(); }
		else if (m.cs.empty()) { continue; }
		else if (f.compare(0, 4, "num=") == 0) { m.cs.back().num = static_cast<uint32_t>(strtoul(f.c_str() + 4, nullptr, 10)); }
		else if (f.compare(0, 3, "wf=") == 0) { m.cs.back().wf = unesc_field(val(3)); }
		else if (f.compare(0, 2, "t=") == 0) { m.cs.back().text = unesc_field(val(2)); }
		else if (f.compare(0, 2, "f=") == 0) {
			uint32_t x = static_cast<uint32_t>(strtoul(f.c_str() + 2, nullptr, 10));
			if (m.cs.back().rs.empty()) { m.cs.back().has_text = x & 1; }
			else { m.cs.back().rs.back().flags = x; }
		}
		else if (f.compare(0, 2, "b=") == 0) { m.cs.back().rs.back().base = unesc_field(val(2)); }
		else if (f.compare(0, 2, "g=") == 0) { m.cs.back().rs.back().tags.push_back(unesc_field(val(2))); }
	}
	return true;
}
// the window after a reply
static PW replied(const PW& q, const Msg& rep) {
	if (rep.null) { return q; }
	PW w = q;
	for (size_t i = 0; i < w.size() && i < rep.cs.size(); ++i) {
		auto& c = rep.cs[i];
		bool force = c.wf != w[i].wf;
		w[i].wf = c.wf;
		if (c.has_text) { w[i].text = c.text; }
		for (size_t k = 0; k < w[i].rs.size() && k < c.rs.size(); ++k) {
			if (!force && !(c.rs[k].flags & 1)) { continue; }
			w[i].rs[k] = c.rs[k];
			if (!(c.rs[k].flags & 8)) { w[i].rs[k].base.clear(); }
		}
	}
	return w;
}
// cohorts of CG output, as requests show them
static PW parse_cg(const std::string& out) {
	PW w;
	for (auto& l : split_lines(out)) {
		if (l.compare(0, 2, "\"<") == 0) {
			w.emplace_back();
			size_t e = l.find(">\"", 2);
			w.back().wf = e == std::string::npos ? l : l.substr(0, e + 2);
		}
		else if (l.size() > 1 && l[0] == '\t' && l[1] != '\t' && !w.empty()) {
			PC::R r;
			std::string t = l.substr(1);
			if (t[0] == '"') {
				size_t e = t.find("\" ", 1);
				r.base = e == std::string::npos ? t : t.substr(0, e + 1);
				t = e == std::string::npos ? "" : t.substr(e + 2);
			}
			r.tags = words(t);
			w.back().rs.push_back(r);
		}
		else if (!l.empty() && l[0] != '\t' && !w.empty()) { w.back().text += l + "\n"; }
	}
	return w;
}
static std::string diff(const std::vector<std::string>& a, const std::vector<std::string>& b) {
	for (size_t i = 0; i < std::max(a.size(), b.size()); ++i) {
		std::string x = i < a.size() ? a[i] : "(none)", y = i < b.size() ? b[i] : "(none)";
		if (x != y) { return "cohort " + std::to_string(i) + ": A: " + esc(x).substr(0, 300) + " | B: " + esc(y).substr(0, 300); }
	}
	return {};
}
struct Conv { std::vector<Msg> msgs; int started = 0, reaped = 0, exited = 0, nulls = 0; std::map<int, int> versions; std::string bad; };
static Conv talk(const RunOut& r) {
	Conv c;
	std::set<int> ver;
	for (auto& n : r.notes) {
		Msg m;
		if (parse_msg(n, m)) {
			if (!m.reply && !ver.count(m.child) && c.bad.empty()) { c.bad = "a window before the version"; }
			c.msgs.push_back(m);
		}
		else if (n.compare(0, 3, "EXT") == 0) {
			char* e;
			int k = static_cast<int>(strtol(n.c_str() + 3, &e, 10));
			std::string t = *e ? e + 1 : e;
			if (t.compare(0, 5, "start") == 0) { ++c.started; }
			else if (t == "reaped") { ++c.reaped; }
			else if (t.compare(0, 4, "exit") == 0) { ++c.exited; }
			else if (t == "null request") { ++c.nulls; }
			else if (t.compare(0, 7, "version") == 0) {
				ver.insert(k);
				if (t != "version 7226" && c.bad.empty()) { c.bad = "unexpected " + t; }
			}
			else if (t.compare(0, 9, "malformed") == 0 || t.compare(0, 5, "stdio") == 0 || t.compare(0, 5, "close") == 0) { if (c.bad.empty() && t != "closes its output") { c.bad = t; } }
		}
		else if (n.compare(0, 6, "ESCAPE") == 0 && c.bad.empty()) { c.bad = n; }
	}
	return c;
}
static std::string gtext(const Scenario& sc, const std::vector<std::string>& ext) {
	std::string r;
	bool before = sc.gets("pos") == "before", done = false;
	auto put = [&]() { if (ext.empty()) { return; } r += before ? "BEFORE-SECTIONS\n" : "AFTER-SECTIONS\n"; for (auto& e : ext) { r += e + "\n"; } };
	for (auto& o : sc.ops) {
		if (o.kind != "g") { continue; }
		if (before && !done && o.s(0) == "SECTION") { put(); done = true; }
		r += o.s(0) + "\n";
	}
	if (!before) { put(); }
	return r;
}
static Verdict exec(const Scenario& sc) {
	Verdict v;
	std::vector<Op> doc;
	std::vector<std::string> ext;
	for (auto& o : sc.ops) {
		if (is_doc_op(o)) { doc.push_back(o); }
		if (o.kind == "x") { ext.push_back(o.s(0)); }
	}
	if (ext.empty()) { v.trivial = true; return v; }
	bool before = sc.gets("pos") == "before";
	RunSpec base;
	base.tool = "vislcg3";
	base.in = ser_doc(doc, Fmt::CG);
	base.argv = {"-g", "g.cg3"};
	for (auto& o : sc.ops) { if (o.kind == "arg") { for (auto& a : o.a) { base.argv.push_back(a); } } }
	Rng e(static_cast<uint64_t>(sc.geti("pseed")) + 3);
	auto go = [&](const std::string& gr, const ProcPlan& p, const std::string* in = nullptr) {
		RunSpec s = base;
		bool ok = true;
		if (in) { s.in = *in; }
		std::string bytes = sc.geti("bin") ? compile_grammar(gr, ok) : gr;
		fs_put("g.cg3", bytes);
		s.proc = p;
		vary_env(e, s);
		auto r = run(s);
		v.absorb(r);
		return r;
	};
	ProcPlan quiet;
	auto r0 = go(gtext(sc, {}), quiet);
	if (!r0.ok() || r0.err.find("Endless loop") != std::string::npos) { v.trivial = true; return v; } // a grammar that loops
	std::string ident;
	for (auto& o : sc.ops) { if (o.kind == "g") { if (o.s(0) == "SECTION") { break; } if (o.s(0) != "BEFORE-SECTIONS" && (o.s(0).compare(0, 4, "DELI") == 0 || o.s(0).compare(0, 4, "SOFT") == 0)) { ident += o.s(0) + "\n"; } } }
	auto rid = before ? go(ident + "SECTION\n", quiet) : r0;
	if (!rid.ok()) { v.trivial = true; return v; }
	auto shown = parse_cg(rid.out);
	// every window, nothing changed
	auto r1 = go(gtext(sc, {"EXTERNAL ONCE extprog (*) ;"}), quiet);
	auto t1 = talk(r1);
	stat("p08.runs");
	if (!r1.ok()) { v.fail("null:" + r1.verdict(), "with a program that never changes anything: " + describe(r1)); return v; }
	if (!t1.bad.empty()) { v.fail("null-protocol", t1.bad); return v; }
	if (r1.out != r0.out) { v.fail("null-differs", "a program that never changes anything changes the output: " + diff_summary(r0.out, r1.out)); return v; }
	std::vector<std::string> all, want;
	std::vector<PW> wins;
	for (auto& m : t1.msgs) {
		if (m.reply) { continue; }
		for (auto& w : wins) { if (!w.empty() && !m.cs.empty() && w[0].num == m.cs[0].num) { v.fail("twice", "window " + std::to_string(m.win) + " is sent again"); return v; } }
		wins.push_back(m.cs);
		for (auto& c : m.cs) { all.push_back(canon(c)); }
	}
	want = canon(shown);
	bool maps = false; // readings that differ in mapping tags only are printed as one
	for (auto& x : all) { maps |= x.find(" @") != std::string::npos; }
	if (!maps && all != want) { v.fail(before ? "request-before" : "request-after", "what the program was sent (B) is not what the rules saw (A): " + diff(want, all)); return v; }
	if (t1.started != t1.reaped || t1.started != t1.exited) { v.fail("not-reaped", std::to_string(t1.started) + " programs started, " + std::to_string(t1.exited) + " ended, " + std::to_string(t1.reaped) + " reaped"); return v; }
	if (sc.geti("final") && t1.started && t1.nulls != t1.started) { v.fail("no-final-null", "the program is not sent the null packet that the manual promises as the last thing at shutdown"); return v; }
	if (wins.empty()) { v.trivial = true; return v; }
	// replies that change things
	ProcPlan p;
	p.seed = static_cast<uint64_t>(sc.geti("pseed"));
	p.mode = sc.gets("mode");
	p.pipe_cap = static_cast<uint32_t>(sc.geti("cap"));
	p.partial = sc.geti("partial") != 0;
	auto gr = gtext(sc, ext);
	auto r2 = go(gr, p);
	auto t2 = talk(r2);
	if (getenv("CG3SIM_SHOW")) { for (auto& n : r2.notes) { fprintf(stderr, "%s\n", n.c_str()); } fprintf(stderr, "%s\n", r2.out.c_str()); }
	bool many = r2.err.find("Endless loop") != std::string::npos;
	for (auto& w : wins) { for (auto& c : w) { many |= c.rs.size() > 60; } }
	if ((before || many) && r2.kind == Kind::Hang) { v.trivial = true; return v; } // the rules loop, on the changed text at the latest
	if (!r2.ok()) { v.fail("reply:" + r2.verdict(), "with a program that answers properly (" + p.mode + "): " + describe(r2)); return v; }
	if (!t2.bad.empty()) { v.fail("protocol", t2.bad); return v; }
	if (t2.started != t2.reaped || t2.started != t2.exited) { v.fail("not-reaped", std::to_string(t2.started) + " programs started, " + std::to_string(t2.exited) + " ended, " + std::to_string(t2.reaped) + " reaped"); return v; }
	// each request shows its window as the previous replies left it, and the output the last state
	std::map<uint32_t, size_t> at; // first cohort number -> window
	for (size_t i = 0; i < wins.size(); ++i) { at[wins[i][0].num] = i; }
	std::vector<PW> now = wins;
	std::map<size_t, std::map<int, int>> sent;
	size_t requests = 0;
	const Msg* open = nullptr;
	for (auto& m : t2.msgs) {
		if (!m.reply) {
			++requests;
			if (m.cs.empty() || !at.count(m.cs[0].num)) { v.fail("request-unknown", "a window was sent that is not one of the input's"); return v; }
			size_t k = at[m.cs[0].num];
			auto a = canon(now[k]), b = canon(m.cs);
			if (a != b) { v.fail("request-stale", "request " + std::to_string(requests) + " shows another window (B) than the replies so far made (A): " + diff(a, b)); return v; }
			sent[k][m.child]++;
			open = &m;
		}
		else if (open) {
			size_t k = at[open->cs[0].num];
			now[k] = replied(now[k], m);
			open = nullptr;
		}
	}
	stat("p08.requests", requests);
	// which windows: one rule, run once
	if (ext.size() == 1) {
		bool once = ext[0].find("ONCE") != std::string::npos, star = ext[0].find("(*)") != std::string::npos;
		for (size_t i = 0; i < wins.size(); ++i) {
			int n = sent.count(i) ? sent[i].begin()->second : 0;
			if (once && n > 1) { v.fail("once-twice", "window " + std::to_string(i) + " was sent " + std::to_string(n) + " times by an EXTERNAL ONCE rule"); return v; }
			if (star && n == 0) { v.fail("missed", "window " + std::to_string(i) + " was not sent though the rule matches it"); return v; }
			auto has = [&](const char* t) { for (auto& c : wins[i]) { for (auto& r : c.rs) { for (auto& x : r.tags) { if (x == t) { return true; } } } } return false; };
			if (ext[0].find(" N ;") != std::string::npos && has("N") != (n > 0)) { v.fail(n ? "sent-unmatched" : "missed", "window " + std::to_string(i) + (n ? " was sent though it has no match" : " was not sent though the rule matches it")); return v; }
			if (ext[0].find(" V ;") != std::string::npos && has("V") != (n > 0)) { v.fail(n ? "sent-unmatched" : "missed", "window " + std::to_string(i) + (n ? " was sent though it has no match" : " was not sent though the rule matches it")); return v; }
		}
	}
	PW fin;
	for (auto& w : now) { for (auto& c : w) { fin.push_back(c); } }
	PW outw;
	if (before && p.mode != "wordform" && p.mode != "mixed") {
		// the rest of the grammar over what the program made of the input
		std::string in;
		bool tricky = false;
		for (auto& c : fin) {
			in += c.wf + "\n";
			for (auto& r : c.rs) {
				tricky |= (r.flags & 2) != 0; // a cohort read without readings
				in += "\t" + r.base;
				size_t maps = 0;
				for (auto& t : r.tags) { in += " " + t; maps += t[0] == '@'; }
				tricky |= maps > 1;
				in += "\n";
			}
		}
		for (auto& w : wins) { for (auto& c : w) { for (auto& r : c.rs) { for (auto& t : r.tags) { tricky |= t[0] == '@'; } } } }
		tricky |= p.mode == "addtag";
		for (auto& o : doc) { if (o.kind == "k" || o.kind == "t") { tricky = true; } if (o.kind == "c") { Coh c; if (op_coh(o, c)) { for (auto& r : c.rs) { tricky |= !r.subs.empty(); } } } }
		if (!tricky) {
			auto rr = go(gtext(sc, {}), quiet, &in);
			if (rr.ok()) {
				stat("p08.composed");
				auto a = canon(parse_cg(rr.out)), b = canon(parse_cg(r2.out));
				if (a != b) { v.fail("reply-rules", "after the reply the rules give something else (B) than on the same text read in (A): " + diff(a, b)); return v; }
			}
		}
	}
	else if (!before) {
		auto a = canon(fin), b = canon(parse_cg(r2.out));
		outw = parse_cg(r2.out);
		maps = false;
		for (auto& x : a) { maps |= x.find(" @") != std::string::npos; }
		for (auto& c : fin) { // a reading equal to one that is not printed may go with it
			for (auto& x : c.rs) { for (auto& y : c.rs) { maps |= (x.flags & 2) && !(y.flags & 2) && x.base == y.base && x.tags == y.tags; } }
		}
		if (!maps && a != b) { v.fail("reply-output", "the output (B) is not the window with the reply applied (A): " + diff(a, b)); return v; }
		for (size_t i = 0; i < fin.size() && i < outw.size(); ++i) {
			if (fin[i].text.compare(0, 4, " txt") == 0 && outw[i].text.find(fin[i].text) == std::string::npos) { v.fail("reply-text", "the text of a reply is not in the output: " + esc(fin[i].text)); return v; }
		}
		stat("p08.applied");
	}
	// faults
	for (auto& o : sc.ops) {
		if (o.kind != "fault") { continue; }
		ProcPlan q = p;
		auto& kind = o.s(0);
		int64_t win = o.i(1);
		if (kind == "fork") { q.fail_fork = 1 + win % 2; }
		else if (kind == "pipe") { q.fail_pipe = 1 + win % 4; }
		else { q.fault = kind; q.fault_window = kind == "die_before" ? 0 : win; }
		auto r = go(gr, q);
		auto t = talk(r);
		uint64_t fired = 0;
		for (auto& [k, n] : r.counters) { if (k.compare(0, 10, "fault.ext_") == 0 || k == "fault.fork_eagain" || k == "fault.pipe_emfile") { fired += n; } }
		if ((before || many) && r.kind == Kind::Hang) { continue; }
		if (r.kind == Kind::Deadlock || r.kind == Kind::Hang) { v.fail("fault-hang:" + kind, "the program does \"" + kind + "\" at its window " + std::to_string(win) + ": " + describe(r)); return v; }
		if (r.kind == Kind::Signal && r.code != 13) { v.fail("fault-crash:" + kind, "the program does \"" + kind + "\" at its window " + std::to_string(win) + ": " + describe(r)); return v; }
		if (!t.bad.empty()) { v.fail("fault-protocol:" + kind, t.bad); return v; }
		if (!fired) {
			if (r.out != r2.out) { v.fail("unstable", "the same exchange gives another output: " + diff_summary(r2.out, r.out)); return v; }
			continue;
		}
		stat("p08.fault." + kind);
		if (kind == "flip") { continue; }
		if (r.ok()) { v.fail("fault-unnoticed:" + kind, "the program does \"" + kind + "\" at its window " + std::to_string(win) + " and the run still succeeds, output " + (r.out == r2.out ? "as without the fault" : "different")); return v; }
		if (r.out.size() > r2.out.size() || r2.out.compare(0, r.out.size(), r.out) != 0) {
			size_t k = 0;
			while (k < r.out.size() && k < r2.out.size() && r.out[k] == r2.out[k]) { ++k; }
			v.fail("fault-output:" + kind, "what was written before the failure is not the beginning of the right output: " + diff_summary(r2.out, r.out));
			return v;
		}
	}
	return v;
}
static Register r8({"P08", gen, exec});
} // namespace sim
