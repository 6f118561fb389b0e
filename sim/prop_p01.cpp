// P01: the result depends on the bytes of the stream, never on how they are delivered.
#include "workload.hpp"
namespace sim {
static Scenario gen(uint64_t seed, bool thorough) {
	Rng g(seed);
	Scenario sc;
	StreamOpts o;
	o.max_coh = thorough ? 60 : 18;
	o.p_weird = g.chance(0.5) ? 0.3 : 0.06;
	o.p_long = g.chance(0.3) ? 0.15 : 0.01;
	gen_stream(g, sc, o);
	sc.set("seed2", static_cast<int64_t>(g.next() >> 2));
	if (g.chance(0.3)) { sc.set("untie", 1); }
	if (g.chance(0.3)) { sc.set("outbuf", g.range(1, 700)); }
	int n = static_cast<int>(g.range(2, 4));
	for (int i = 0; i < n; ++i) { sc.ops.push_back(Op("deliver", gen_chunks(g))); }
	return sc;
}
static Verdict exec(const Scenario& sc) {
	Verdict v;
	auto w = build_stream(sc);
	if (!w.ok || w.spec.in.size() < 2) { v.trivial = true; return v; }
	auto ref = run(w.spec);
	v.absorb(ref);
	if (ref.kind == Kind::Hang) { v.trivial = true; stat("p01.grammar_loops"); return v; }
	if (ref.out.size() < 8) { v.trivial = true; }
	for (auto& o : sc.ops) {
		if (o.kind != "deliver") { continue; }
		RunSpec s = w.spec;
		s.chunks = parse_chunks(o.s(0));
		s.untie = sc.geti("untie");
		s.outbuf = static_cast<uint32_t>(sc.geti("outbuf", 4096));
		auto r = run(s);
		v.absorb(r);
		if (r.verdict() != ref.verdict()) {
			v.fail("outcome:" + s.tool + ":" + sc.gets("ifmt"), "delivery " + o.s(0) + ": " + describe(r) + " but all at once: " + describe(ref));
		}
		else if (r.out != ref.out) {
			v.fail("output:" + s.tool + ":" + sc.gets("ifmt"), "delivery " + o.s(0) + " changes the output: " + diff_summary(r.out, ref.out));
		}
		else if (strip_noise(r.err) != strip_noise(ref.err) && !crashed(ref)) {
			v.fail("diagnostics:" + s.tool, "delivery " + o.s(0) + " changes the diagnostics: " + diff_summary(r.err, ref.err));
		}
	}
	if (crashed(ref)) { v.trivial = true; stat("p01.ref_crashed"); stat("p01.ref_crashed." + w.spec.tool + "." + sc.gets("ifmt") + "." + sc.gets("ofmt") + ".pf" + sc.gets("pf") + "." + ref.verdict()); }
	return v;
}
static Register r1({"P01", gen, exec});
} // namespace sim
