// Workload generation: abstract documents, grammars, stream serialisers.
#pragma once
#include "core.hpp"

namespace sim {

struct Rd { std::string base; std::vector<std::string> tags; std::vector<Rd> subs; };
struct Coh { std::string wf; std::vector<std::string> stags; std::vector<Rd> rs; };

// operations of a document:  c <wf> <reading>...   t <text>   k <command>
Op coh_op(const Coh&);
bool op_coh(const Op&, Coh&);

struct DocOpts {
	int min_coh = 3, max_coh = 25;
	double p_text = 0.08, p_cmd = 0.0, p_delim = 0.18, p_sub = 0.05, p_weird = 0.06, p_long = 0.03, p_soft = 0.05;
	bool vars = false;       // SETVAR / REMVAR
	bool ignore = false;     // IGNORE / RESUME
	bool flush = false;
	bool exit = false;
	bool unique = false;     // every word form carries a unique token id
	bool deps = false;       // dependency tags
	bool rels = false;
	bool far_rels = false;   // many, also to other windows
	bool mappings = true;
	bool plain_ok = false;   // only things plain text can express
	int first_id = 0;
	int rel_base = 0;        // added to relation numbers
};
std::vector<Op> gen_doc(Rng&, const DocOpts&);

enum class Fmt { CG, Apertium, Niceline, FST, Plain, JSONL };
const char* fmt_name(Fmt);
Fmt fmt_from(const std::string&);
std::string fmt_in_flag(Fmt);   // cg-conv / vislcg3 option
// Serialise one operation; `flush_nul` is Apertium's command separator.
std::string ser_op(const Op&, Fmt);
std::string ser_doc(const std::vector<Op>&, Fmt);
bool is_doc_op(const Op&);

struct GramOpts {
	int min_rules = 1, max_rules = 9;
	bool ops = true;         // tag and reading operations
	bool cohorts = false;    // rules that add, remove, split, merge or move cohorts
	bool deps = false, rels = false, vars = false, delim = false, spans = false, with = false, unify = false, magic = false;
	bool soft = true;
	bool external = false;
};
std::vector<Op> gen_grammar(Rng&, const GramOpts&);  // ops: g <line>
std::vector<Op> gen_focus(Rng&);
std::vector<Op> gen_rich(Rng&, int max_rules);           // as much of the rule language as possible
GramOpts random_gram_opts(Rng&);
std::string grammar_text(const Scenario&);
std::vector<std::string> gen_cli(Rng&);              // options that keep the meaning of the stream intact

struct CorpusItem { std::string name, grammar, input, dir; std::vector<std::string> args; };
const std::vector<CorpusItem>& corpus_cg();
const std::vector<CorpusItem>& corpus_ap();

std::string gen_chunks(Rng&);                        // textual chunk plan, see parse_chunks
std::vector<uint32_t> parse_chunks(const std::string&);
std::vector<std::string> words(const std::string&);
std::string join(const std::vector<std::string>&, const std::string& sep = " ");

// environment variation that must not matter
struct Env { uint32_t alloc_mode, alloc_policy, alloc_fill, stack_fill; uint64_t alloc_seed, rand_seed; int64_t epoch; };
void vary_env(Rng&, RunSpec&);

} // namespace sim
