// Scripts of library (C API) calls: generation, execution, transcripts.
#pragma once
#include "gen.hpp"

namespace sim {
// ops:  gl <grammar> <line>      a line of grammar text
//       dc <sentence> <cohort>   a cohort of a sentence, as in coh_op
//       x <thread> <verb> ...    a library call, see session.cpp
struct SessOpts {
	int threads = 1;
	int min_ops = 4, max_ops = 25;
	bool bad = true;       // failing calls
	bool streams = false;  // whole streams only, with the whole rule language and stream commands
	bool twins = false;    // every thread does the same
	bool handover = false; // objects made in one thread and used in another later (P10)
};
void gen_session(Rng&, Scenario&, const SessOpts&);

// Everything a script needs that must be prepared outside the simulated process
struct SessEnv {
	std::map<std::string, std::string> text, bin;              // grammars
	std::map<std::string, std::vector<Coh>> sent;              // sentences
	bool ok = true;
};
SessEnv prepare_session(const Scenario&);
// Run (inside a simulated process) the given calls in order; sink(index, transcript) per call that reads something.
using Sink = std::function<void(size_t, const std::string&)>;
// Objects belong to one run of run_calls.
void run_calls(const SessEnv&, const Scenario&, const std::vector<size_t>& calls, const Sink& sink);
std::string sess_digest(const std::string&);                          // huge transcripts by their hash
void sess_emit(size_t call, const std::string& text);                 // to the output, from inside the process
void sess_end();
std::map<size_t, std::string> sess_parse(const std::string& out);
// The calls that call `i` depends on, itself last
std::vector<size_t> call_slice(const Scenario&, size_t i);
bool call_reads(const Op&);
// for a read of a copied sentence: the same calls with the sentence built directly (false: not such a read)
bool uncopied(const Scenario&, size_t i, Scenario& other, std::vector<size_t>& calls);
void lib_init();
} // namespace sim
