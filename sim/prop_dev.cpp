#include "workload.hpp"
// Development aids (not registered as checks): generator sanity.
#include "gen.hpp"
namespace sim {
static Scenario gen_x(uint64_t seed, bool) {
	Rng g(seed);
	Scenario sc;
	GramOpts o = random_gram_opts(g);
	o.min_rules = o.max_rules = 1;
	for (auto& x : gen_grammar(g, o)) { sc.ops.push_back(x); }
	DocOpts d;
	d.deps = o.deps;
	for (auto& x : gen_doc(g, d)) { sc.ops.push_back(x); }
	return sc;
}
static Verdict exec_x(const Scenario& sc) {
	Verdict v;
	fs_put("g.cg3", grammar_text(sc));
	RunSpec s;
	s.tool = "vislcg3";
	s.argv = {"-g", "g.cg3", "-t"};
	s.in = ser_doc(sc.ops, Fmt::CG);
	auto r = run(s);
	v.absorb(r);
	if (!r.ok() || r.err.find("Error") != std::string::npos) { v.fail("gram" + r.err.substr(0, 60) + r.verdict(), r.verdict() + " " + r.err.substr(0, 600) + "\n" + grammar_text(sc)); }
	if (r.out.find(":") == std::string::npos) { v.trivial = true; }
	return v;
}
static Register rx({"XGRAM", gen_x, exec_x});
// crash hunter on well-formed streams
static Verdict xcrash_exec(const Scenario& sc) {
	Verdict v;
	auto w = build_stream(sc);
	if (!w.ok || w.spec.in.size() < 2) { v.trivial = true; return v; }
	auto ref = run(w.spec);
	v.absorb(ref);
	if (crashed(ref) && ref.kind != Kind::Hang) { v.fail("crash:" + w.spec.tool + ":" + sc.gets("ifmt") + ":" + sc.gets("ofmt"), describe(ref)); }
	if (ref.code == 255 && ref.kind == Kind::Exit) { stat("x." + ref.err.substr(0, 60)); }
	return v;
}
static Scenario xcrash_gen(uint64_t seed, bool th) {
	Rng g(seed);
	Scenario sc;
	StreamOpts o;
	o.p_weird = g.chance(0.5) ? 0.3 : 0.06;
	o.p_long = g.chance(0.3) ? 0.15 : 0.01;
	gen_stream(g, sc, o);
	return sc;
}
static Register rxc({"XCRASH", xcrash_gen, xcrash_exec});
} // namespace sim
