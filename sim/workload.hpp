// Stream workloads: which tool runs, with which grammar and options, on which bytes.
#pragma once
#include "gen.hpp"

namespace sim {

struct StreamOpts {
	bool vislcg3 = true, conv = true, proc = true, mwe = true, corpus = true, binary = true, formats = true, autodetect = true;
	bool flush = true, vars = true, ignore = true, exit = true;
	bool rich = true;          // sometimes nearly the whole rule language
	bool identity = false;     // grammar that changes nothing
	double focus = 0;          // few contexts over and over, with relations across windows
	int max_coh = 22;
	double p_long = 0.03, p_weird = 0.08, p_cmd = 0.08;
};
void gen_stream(Rng&, Scenario&, const StreamOpts&);

struct Workload {
	RunSpec spec;
	bool ok = true;            // preparation (compile / convert) went well
	std::string why;
};
// writes the files and returns the run; deliveries, faults and environment are the caller's
Workload build_stream(const Scenario&, const std::vector<Op>* doc = nullptr);
std::string stream_bytes(const Scenario&, const std::vector<Op>& ops, bool& ok);
std::string compile_grammar(const std::string& text, bool& ok); // text grammar -> binary grammar bytes

std::string strip_noise(const std::string& err);                // stderr without the tool's progress chatter
bool crashed(const RunOut&);                                    // signal, hang, deadlock
std::string describe(const RunOut&);
} // namespace sim
