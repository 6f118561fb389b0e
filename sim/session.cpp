#include "session.hpp"
#include "workload.hpp"
#include <fstream>
#include <sstream>
#include "cg3.h"

namespace sim {
// Verbs (after the thread):
//  G slot grammar how        load (text | bin from a buffer, ftext | fbin from a file)
//  A slot gslot flags sect   make an applicator
//  S slot aslot sentence enc build a sentence
//  C slot sslot aslot        copy a sentence to an applicator
//  R slot                    run the rules
//  D slot enc                read everything back
//  T aslot sentence how      run on text (stream | file | buffer)
//  V fin fout sentence       convert with a stream converter
//  W sentence                split multi-word readings
//  B kind                    calls that fail
//  P sentence fmt            detect the format of a text
//  F slot                    free (whatever the slot holds)
static const std::string& verb(const Op& o) { return o.s(1); }
bool call_reads(const Op& o) { return o.kind == "x" && verb(o).size() == 1 && strchr("GDTVWBP", verb(o)[0]); }

void lib_init() { cg3_init(stdin, stdout, stderr); }

SessEnv prepare_session(const Scenario& sc) {
	SessEnv e;
	std::set<std::string> need;
	for (auto& o : sc.ops) {
		if (o.kind == "gl") { e.text[o.s(0)] += o.s(1) + "\n"; }
		else if (o.kind == "dc" && !o.a.empty()) { // through the library a cohort needs a reading
			Op c("c");
			c.a.assign(o.a.begin() + 1, o.a.end());
			Coh x;
			if (op_coh(c, x) && !x.rs.empty()) { e.sent[o.s(0)].push_back(x); }
		}
		else if (o.kind == "x" && verb(o) == "G" && (o.s(4) == "bin" || o.s(4) == "fbin")) { need.insert(o.s(3)); }
	}
	for (auto& [k, t] : e.text) { fs_put("lib" + k + ".cg3", t); }
	for (auto& k : need) {
		bool ok = true;
		e.bin[k] = compile_grammar(e.text[k], ok);
		if (!ok) { e.ok = false; }
		fs_put("lib" + k + ".bin", e.bin[k]);
	}
	fs_put("bad.cg3", "DELIMITERS = \"<$.>\" ;\nLIST N = N ;\nSECTION\nSELECT N IF (1 ;\nREMOVE ((( ;\n");
	fs_put("short.cg3", "ab");
	return e;
}

namespace {
struct Slot { char type = 0; void* p = nullptr; std::string from; int users = 0; bool ran = false; };

cg3_tag* mk_tag(cg3_applicator* a, const std::string& t, int enc) {
	if (enc % 4 == 0) { return cg3_tag_create_u8(a, t.c_str()); }
	std::vector<uint32_t> u32;
	for (size_t i = 0; i < t.size();) {
		unsigned char c = static_cast<unsigned char>(t[i]);
		int n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
		uint32_t v = n == 1 ? c : c & (0xFF >> (n + 1));
		for (int k = 1; k < n && i + static_cast<size_t>(k) < t.size(); ++k) { v = (v << 6) | (static_cast<unsigned char>(t[i + static_cast<size_t>(k)]) & 0x3F); }
		u32.push_back(v);
		i += static_cast<size_t>(n);
	}
	if (enc % 4 == 1) { u32.push_back(0); return cg3_tag_create_u32(a, u32.data()); }
	if (enc % 4 == 2) {
		std::wstring w(u32.begin(), u32.end());
		return cg3_tag_create_w(a, w.c_str());
	}
	std::vector<uint16_t> u16;
	for (auto c : u32) { if (c < 0x10000) { u16.push_back(static_cast<uint16_t>(c)); } else { u16.push_back(static_cast<uint16_t>(0xD7C0 + (c >> 10))); u16.push_back(static_cast<uint16_t>(0xDC00 + (c & 0x3FF))); } }
	u16.push_back(0);
	return cg3_tag_create_u16(a, u16.data());
}
void put8(std::string& r, uint32_t c) {
	if (c < 0x80) { r += static_cast<char>(c); }
	else if (c < 0x800) { r += static_cast<char>(0xC0 | (c >> 6)); r += static_cast<char>(0x80 | (c & 63)); }
	else if (c < 0x10000) { r += static_cast<char>(0xE0 | (c >> 12)); r += static_cast<char>(0x80 | ((c >> 6) & 63)); r += static_cast<char>(0x80 | (c & 63)); }
	else { r += static_cast<char>(0xF0 | (c >> 18)); r += static_cast<char>(0x80 | ((c >> 12) & 63)); r += static_cast<char>(0x80 | ((c >> 6) & 63)); r += static_cast<char>(0x80 | (c & 63)); }
}
std::string rd_tag(cg3_tag* t, int enc) { // whatever the encoding asked for, the same text
	std::string r;
	if (enc % 4 == 0) { auto p = cg3_tag_gettext_u8(t); return p ? p : "(null)"; }
	if (enc % 4 == 1) { auto p = cg3_tag_gettext_u32(t); if (!p) { return "(null)"; } for (; *p; ++p) { put8(r, *p); } return r; }
	if (enc % 4 == 2) { auto p = cg3_tag_gettext_w(t); if (!p) { return "(null)"; } for (; *p; ++p) { put8(r, static_cast<uint32_t>(*p)); } return r; }
	auto p = cg3_tag_gettext_u16(t);
	for (; *p; ++p) {
		uint32_t c = *p;
		if (c >= 0xD800 && c < 0xDC00 && p[1]) { c = 0x10000 + ((c - 0xD800) << 10) + (*++p - 0xDC00u); }
		put8(r, c);
	}
	return r;
}
std::string tag_text(const std::string& t) { return t; }
void add_reading_tags(cg3_applicator* a, cg3_reading* r, const Rd& rd, int& enc) {
	cg3_reading_addtag(r, mk_tag(a, "\"" + rd.base + "\"", enc++));
	for (auto& t : rd.tags) { cg3_reading_addtag(r, mk_tag(a, tag_text(t), enc++)); }
}
void add_sub(cg3_applicator* a, cg3_reading* top, const Rd& rd, int& enc) {
	cg3_reading* cur = top;
	const Rd* x = &rd;
	while (!x->subs.empty()) {
		x = &x->subs[0];
		cg3_reading* s = cg3_subreading_create(cur);
		add_reading_tags(a, s, *x, enc);
		cg3_reading_setsubreading(cur, s);
		cur = s;
	}
}
void dump_reading(std::string& r, cg3_reading* rd, int& enc, int depth) {
	r += std::string(static_cast<size_t>(depth), '\t');
	for (size_t i = 0, n = cg3_reading_numtags(rd); i < n; ++i) { r += rd_tag(cg3_reading_gettag(rd, i), enc++) + " "; }
	for (size_t i = 0, n = cg3_reading_numtraces(rd); i < n; ++i) { r += "TRACE:" + std::to_string(cg3_reading_gettrace(rd, i)) + "/" + std::to_string(cg3_reading_gettrace_ruletype(rd, i)) + " "; }
	r += "\n";
	if (cg3_reading_numsubreadings(rd)) { dump_reading(r, cg3_reading_getsubreading(rd, 1), enc, depth + 1); }
}
std::string dump_sentence(cg3_sentence* s, int enc, bool ran) {
	std::string r;
	std::map<uint32_t, size_t> ids;
	size_t n = cg3_sentence_numcohorts(s);
	for (size_t i = 0; i < n; ++i) { ids[cg3_cohort_getid(cg3_sentence_getcohort(s, i))] = i; }
	auto rel = [&](uint32_t x) { if (!ran) { return std::string("-"); } auto it = ids.find(x); return x == 0xFFFFFFFFu ? std::string("none") : x == 0 ? "0" : it == ids.end() ? std::string("?") : it->second == 0 ? std::string("0") : "c" + std::to_string(it->second); };
	for (size_t i = 0; i < n; ++i) {
		auto c = cg3_sentence_getcohort(s, i);
		uint32_t ds = 0, dp = 0;
		cg3_cohort_getdependency(c, &ds, &dp);
		r += rd_tag(cg3_cohort_getwordform(c), enc++) + (i ? " #" + rel(ds) + "->" + rel(dp) : std::string()) + "\n";
		for (size_t k = 0, m = cg3_cohort_numreadings(c); k < m; ++k) { dump_reading(r, cg3_cohort_getreading(c, k), enc, 1); }
		for (size_t k = 0, m = cg3_cohort_numdelreadings(c); k < m; ++k) { r += ";"; dump_reading(r, cg3_cohort_getdelreading(c, k), enc, 1); }
	}
	return r;
}
std::string doc_text(const std::vector<Coh>& d) {
	std::vector<Op> ops;
	for (auto& c : d) { ops.push_back(coh_op(c)); }
	return ser_doc(ops, Fmt::CG);
}
cg3_sformat sfmt(const std::string& s) {
	static const std::map<std::string, cg3_sformat> m = {{"cg", CG3SF_CG}, {"niceline", CG3SF_NICELINE}, {"apertium", CG3SF_APERTIUM}, {"fst", CG3SF_FST}, {"plain", CG3SF_PLAIN}, {"jsonl", CG3SF_JSONL}, {"binary", CG3SF_BINARY}};
	auto it = m.find(s);
	return it == m.end() ? CG3SF_CG : it->second;
}
} // namespace

void run_calls(const SessEnv& e, const Scenario& sc, const std::vector<size_t>& calls, const Sink& sink) {
	std::map<std::string, Slot> slots;
	auto get = [&](const std::string& n, char t) -> Slot* { auto it = slots.find(n); return it == slots.end() || it->second.type != t || !it->second.p ? nullptr : &it->second; };
	for (auto i : calls) {
		auto& o = sc.ops[i];
		if (o.kind != "x" || verb(o).empty()) { continue; }
		std::string out;
		bool did = false;
		try {
			switch (verb(o)[0]) {
			case 'G': {
				if (slots.count(o.s(2))) { break; }
				auto t = e.text.find(o.s(3));
				if (t == e.text.end() || t->second.size() < 4) { break; }
				auto& how = o.s(4);
				void* g = nullptr;
				if (how == "bin") { auto b = e.bin.find(o.s(3)); if (b == e.bin.end() || b->second.empty()) { break; } g = cg3_grammar_load_buffer(b->second.data(), b->second.size()); }
				else if (how == "fbin") { g = cg3_grammar_load(("lib" + o.s(3) + ".bin").c_str()); }
				else if (how == "ftext") { g = cg3_grammar_load(("lib" + o.s(3) + ".cg3").c_str()); }
				else { g = cg3_grammar_load_buffer(t->second.data(), t->second.size()); }
				out = g ? "loaded\n" : "null\n";
				did = true;
				if (g) { slots[o.s(2)] = {'G', g, "", 0}; }
				break;
			}
			case 'A': {
				auto g = get(o.s(3), 'G');
				if (!g || slots.count(o.s(2))) { break; }
				auto a = cg3_applicator_create(g->p);
				cg3_applicator_setflags(a, static_cast<uint32_t>(o.i(4)));
				auto& sct = o.s(5);
				if (!sct.empty()) {
					if (sct.size() == 1) { uint32_t n = static_cast<uint32_t>(o.i(5)); cg3_applicator_setoption(a, CG3O_SECTIONS, &n); }
					else { cg3_applicator_setoption(a, CG3O_SECTIONS_TEXT, const_cast<char*>(sct.c_str())); }
				}
				++g->users;
				slots[o.s(2)] = {'A', a, o.s(3), 0};
				break;
			}
			case 'S': {
				auto a = get(o.s(3), 'A');
				auto d = e.sent.find(o.s(4));
				if (!a || d == e.sent.end() || slots.count(o.s(2))) { break; }
				int enc = static_cast<int>(o.i(5));
				auto s = cg3_sentence_new(a->p);
				bool deps = o.i(6) != 0;
				uint32_t n = 0;
				for (auto& c : d->second) {
					++n;
					auto co = cg3_cohort_create(s);
					cg3_cohort_setwordform(co, mk_tag(a->p, "\"<" + c.wf + ">\"", enc++));
					for (auto& rd : c.rs) {
						auto r = cg3_reading_create(co);
						add_reading_tags(a->p, r, rd, enc);
						add_sub(a->p, r, rd, enc);
						cg3_cohort_addreading(co, r);
					}
					if (deps) { cg3_cohort_setdependency(co, n, n == 1 ? 0 : (n * 7) % n); }
					cg3_sentence_addcohort(s, co);
				}
				++a->users;
				slots[o.s(2)] = {'S', s, o.s(3), 0};
				break;
			}
			case 'C': {
				auto s = get(o.s(3), 'S');
				auto a = get(o.s(4), 'A');
				if (!s || !a || slots.count(o.s(2))) { break; }
				auto n = cg3_sentence_copy(s->p, a->p);
				++a->users;
				slots[o.s(2)] = {'S', n, o.s(4), 0};
				break;
			}
			case 'R': {
				auto s = get(o.s(2), 'S');
				if (!s) { break; }
				cg3_sentence_runrules(slots[s->from].p, s->p);
				s->ran = true;
				break;
			}
			case 'D': {
				auto s = get(o.s(2), 'S');
				if (!s) { break; }
				out = dump_sentence(s->p, static_cast<int>(o.i(3)), s->ran);
				did = true;
				break;
			}
			case 'T': {
				auto a = get(o.s(2), 'A');
				auto d = e.sent.find(o.s(3));
				if (!a || d == e.sent.end()) { break; }
				auto in = doc_text(d->second);
				if (o.s(4) == "file") {
					std::string fn = "t" + o.s(0) + "_" + std::to_string(i);
					{ std::ofstream f(fn + ".in", std::ios::binary); f << in; }
					cg3_run_grammar_on_text_fns(a->p, (fn + ".in").c_str(), (fn + ".out").c_str());
					std::ifstream f(fn + ".out", std::ios::binary);
					std::ostringstream os;
					os << f.rdbuf();
					out = os.str();
					remove((fn + ".in").c_str());
					remove((fn + ".out").c_str());
				}
				else if (o.s(4) == "buffer") {
					std::vector<char> b(1 << 18);
					size_t n = cg3_run_grammar_on_buffer(a->p, in.data(), in.size(), b.data(), b.size());
					out.assign(b.data(), std::min(n, b.size()));
				}
				else {
					std::istringstream is(in);
					std::ostringstream os;
					cg3_run_grammar_on_text(a->p, static_cast<std::istream*>(&is), static_cast<std::ostream*>(&os));
					out = os.str();
				}
				did = true;
				break;
			}
			case 'V': {
				auto d = e.sent.find(o.s(4));
				if (d == e.sent.end()) { break; }
				std::vector<Op> ops;
				for (auto& c : d->second) { ops.push_back(coh_op(c)); }
				std::string fn = "v" + o.s(0) + "_" + std::to_string(i);
				{ std::ofstream f(fn + ".in", std::ios::binary); f << ser_doc(ops, fmt_from(o.s(2))); }
				auto c = cg3_sconverter_create(sfmt(o.s(2)), sfmt(o.s(3)));
				cg3_sconverter_run_fns(c, (fn + ".in").c_str(), (fn + ".out").c_str());
				cg3_sconverter_free(c);
				std::ifstream f(fn + ".out", std::ios::binary);
				std::ostringstream os;
				os << f.rdbuf();
				out = os.str();
				remove((fn + ".in").c_str());
				remove((fn + ".out").c_str());
				did = true;
				break;
			}
			case 'W': {
				auto d = e.sent.find(o.s(2));
				if (d == e.sent.end()) { break; }
				auto m = cg3_mwesplitapplicator_create();
				std::istringstream is(doc_text(d->second));
				std::ostringstream os;
				cg3_run_mwesplit_on_text(m, static_cast<std::istream*>(&is), static_cast<std::ostream*>(&os));
				cg3_mwesplitapplicator_free(m);
				out = os.str();
				did = true;
				break;
			}
			case 'B': {
				void* g = nullptr;
				if (o.s(2) == "nofile") { g = cg3_grammar_load("no/such/file.cg3"); }
				else if (o.s(2) == "short") { g = cg3_grammar_load("short.cg3"); }
				else if (o.s(2) == "shortbuf") { g = cg3_grammar_load_buffer("ab", 2); }
				else if (o.s(2) == "badfile") { g = cg3_grammar_load("bad.cg3"); }
				else if (o.s(2) == "badbuf") { g = cg3_grammar_load_buffer("LIST N = N ;\nSELECT N IF ((1 ;\n", 0); }
				else if (o.s(2) == "cutbin") {
					auto b = e.bin.find(o.s(3));
					if (b == e.bin.end() || b->second.size() < 16) { break; }
					size_t n = 4 + static_cast<size_t>(o.i(4)) % (b->second.size() - 4);
					g = cg3_grammar_load_buffer(b->second.data(), n);
				}
				else if (o.s(2) == "badtag") {
					auto a = get(o.s(3), 'A');
					if (!a) { break; }
					out = cg3_tag_create_u8(a->p, "a\xff\xfe" "b") ? "tag\n" : "null\n";
					did = true;
					break;
				}
				else { break; }
				did = true;
				out = g ? "loaded\n" : "null\n";
				if (g) { cg3_grammar_free(g); }
				break;
			}
			case 'P': {
				auto d = e.sent.find(o.s(2));
				if (d == e.sent.end()) { break; }
				std::vector<Op> ops;
				for (auto& c : d->second) { ops.push_back(coh_op(c)); }
				auto t = ser_doc(ops, fmt_from(o.s(3)));
				if (t.size() > 900) { t.resize(900); }
				out = "format " + std::to_string(static_cast<int>(cg3_detect_sformat_buffer(t.data(), t.size()))) + "\n";
				did = true;
				break;
			}
			case 'F': {
				auto it = slots.find(o.s(2));
				if (it == slots.end() || !it->second.p || it->second.users) { break; }
				auto& s = it->second;
				if (s.type == 'S') { cg3_sentence_free(s.p); }
				else if (s.type == 'A') { cg3_applicator_free(s.p); }
				else if (s.type == 'G') { cg3_grammar_free(s.p); }
				s.p = nullptr;
				if (!s.from.empty()) { --slots[s.from].users; }
				break;
			}
			default: break;
			}
		}
		catch (std::exception& x) { out = std::string("exception ") + x.what() + "\n"; did = true; }
		catch (...) { out = "exception\n"; did = true; }
		if (did || call_reads(o)) { sink(i, did ? out : "\x1d"); }
	}
}

static const char SEP = '\x1e';
std::map<size_t, std::string> sess_parse(const std::string& out) {
	std::map<size_t, std::string> m;
	for (size_t i = 0; i < out.size();) {
		size_t e = out.find(SEP, i + 1);
		if (e == std::string::npos) { e = out.size(); }
		size_t nl = out.find('\n', i);
		if (out[i] == SEP && nl < e) { m[strtoull(out.c_str() + i + 1, nullptr, 10)] = out.substr(nl + 1, e - nl - 1); }
		i = e;
	}
	return m;
}
// endless grammars pile up enormous traces: those are compared by their hash
std::string sess_digest(const std::string& t) {
	if (t.size() < 300000) { return t; }
	uint64_t h = 1469598103934665603ull;
	for (unsigned char c : t) { h = (h ^ c) * 1099511628211ull; }
	return t.substr(0, 10000) + "\n... " + std::to_string(t.size()) + " bytes, hash " + std::to_string(h) + "\n";
}
void sess_emit(size_t i, const std::string& t) { in::emit(std::string(1, SEP) + std::to_string(i) + "\n" + sess_digest(t)); }
void sess_end() { in::emit(std::string(1, SEP) + "end\n"); }

// ------------------------------------------------------------------ slices ---
std::vector<size_t> call_slice(const Scenario& sc, size_t i) {
	std::set<size_t> keep{i};
	std::map<std::string, size_t> maker;
	for (size_t k = 0; k < i; ++k) { auto& o = sc.ops[k]; if (o.kind == "x" && (verb(o) == "G" || verb(o) == "A" || verb(o) == "S" || verb(o) == "C")) { maker.emplace(o.s(2), k); } }
	std::function<void(const std::string&, size_t)> slot = [&](const std::string& n, size_t before) {
		auto it = maker.find(n);
		if (it == maker.end() || it->second >= before) { return; }
		size_t m = it->second;
		auto& o = sc.ops[m];
		keep.insert(m);
		if (verb(o) == "A" || verb(o) == "S") { slot(o.s(3), m); }
		if (verb(o) == "C") { slot(o.s(3), m); slot(o.s(4), m); }
		if (verb(o) == "S" || verb(o) == "C") { for (size_t k = m + 1; k < before; ++k) { if (sc.ops[k].kind == "x" && verb(sc.ops[k]) == "R" && sc.ops[k].s(2) == n) { keep.insert(k); } } }
	};
	auto& o = sc.ops[i];
	if (verb(o) == "D" || verb(o) == "T" || verb(o) == "R") { slot(o.s(2), i); }
	if (verb(o) == "B" && o.s(2) == "badtag") { slot(o.s(3), i); }
	return {keep.begin(), keep.end()};
}

bool uncopied(const Scenario& sc, size_t i, Scenario& other, std::vector<size_t>& calls) {
	auto& o = sc.ops[i];
	if (verb(o) != "D") { return false; }
	other = sc;
	calls = call_slice(sc, i);
	bool any = false;
	// a copy of a sentence that nobody has touched yet
	for (auto k : calls) {
		auto& c = sc.ops[k];
		if (verb(c) != "C") { continue; }
		if (any) { return false; }
		for (auto m : calls) {
			auto& b = sc.ops[m];
			if (verb(b) == "R" && b.s(2) == c.s(3)) { return false; }
			if (verb(b) == "S" && b.s(2) == c.s(3) && b.s(6) == "0" && m < k) {
				// mapping tags go to the end of a copied reading
				for (auto& dc : sc.ops) { if (dc.kind == "dc" && dc.s(0) == b.s(4)) { for (auto& x : dc.a) { if (x.find('@') != std::string::npos || x.find("¤") != std::string::npos) { return false; } } } }
				other.ops[k] = Op("x", c.s(0), "S", c.s(2), c.s(4), b.s(4), b.s(5), "0");
				any = true;
			}
		}
		if (!any) { return false; }
	}
	return any;
}

// --------------------------------------------------------------- generator ---
void gen_session(Rng& g, Scenario& sc, const SessOpts& so) {
	int ng = static_cast<int>(g.range(1, 3)), ns = static_cast<int>(g.range(2, 5));
	bool deps = !so.streams && g.chance(0.2);
	for (int k = 0; k < ng; ++k) {
		if (so.streams && g.chance(0.4)) {
			for (auto& x : gen_focus(g)) { sc.ops.push_back(Op("gl", std::to_string(k), x.s(0))); }
			continue;
		}
		if (g.chance(so.streams ? 0.6 : 0.3)) { // nearly the whole rule language
			for (auto& x : gen_rich(g, 7)) {
				auto& l = x.s(0);
				bool skip = false;
				for (auto w : {"VARIABLE", "RELATION", "DELIMIT ", "DELIMIT:", "SETCHILD", " FROM "}) { skip |= l.find(w) != std::string::npos; }
				if (!deps) { for (auto w : {"PARENT", "SETCHILD"}) { skip |= l.find(w) != std::string::npos; } }
				if (so.streams) { skip = false; }
				if (!skip) { sc.ops.push_back(Op("gl", std::to_string(k), l)); }
			}
			continue;
		}
		GramOpts o = random_gram_opts(g);
		if (so.streams) { o.external = false; o.rels = g.chance(0.4); }
		else {
			o.vars = o.rels = o.external = o.delim = false;
			o.deps = deps;
		}
		o.max_rules = 7;
		for (auto& x : gen_grammar(g, o)) { sc.ops.push_back(Op("gl", std::to_string(k), x.s(0))); }
	}
	for (int k = 0; k < ns; ++k) {
		DocOpts d;
		d.min_coh = 1;
		d.max_coh = g.chance(0.2) ? 40 : 8;
		d.p_text = d.p_cmd = 0;
		if (so.streams) { d.deps = g.chance(0.5); d.rels = g.chance(0.5); }
		d.p_sub = 0.1;
		d.p_long = g.chance(0.1) ? 0.1 : 0;
		if (g.chance(0.5)) { d.p_delim = 0.05; }
		for (auto& x : gen_doc(g, d)) {
			if (x.kind != "c" || x.a.size() < 3) { continue; }
			Op y("dc", std::to_string(k));
			for (auto& a : x.a) { y.a.push_back(a); }
			sc.ops.push_back(y);
		}
	}
	int id = 0;
	std::vector<Op> all;
	for (int t = 0; t < so.threads; ++t) {
		std::string T = std::to_string(t);
		if (t && so.twins) {
			std::vector<Op> c;
			for (auto& o : sc.ops) { if (o.kind == "x" && o.s(0) == "0") { c.push_back(o); c.back().a[0] = T; } }
			for (auto& o : c) { sc.ops.push_back(o); }
			continue;
		}
		std::vector<std::string> gs, as, ss;
		auto name = [&](char c) { return c + T + "_" + std::to_string(++id); };
		auto load = [&]() {
			static const std::vector<std::string> how = {"text", "text", "ftext", "bin", "fbin"};
			gs.push_back(name('g'));
			sc.ops.push_back(Op("x", T, "G", gs.back(), std::to_string(g.below(static_cast<uint64_t>(ng))), g.pick(how)));
		};
		auto make = [&]() {
			static const std::vector<uint32_t> fl = {0, 0, 1 << 7, 1 << 7, 1 << 1, 1 << 2, 1 << 5, (1 << 7) | (1 << 9), 1 << 3, 1 << 8, 1 << 0, 1 << 4, 1 << 6, 1 << 11, 1 << 13};
			static const std::vector<std::string> se = {"", "", "", "", "1", "2", "1-2", "1,2"};
			as.push_back(name('a'));
			sc.ops.push_back(Op("x", T, "A", as.back(), g.pick(gs), std::to_string(g.pick(fl)), g.pick(se)));
		};
		load();
		make();
		static const std::vector<std::string> F = {"cg", "niceline", "apertium", "fst", "jsonl", "cg"}, O = {"cg", "niceline", "apertium", "fst", "jsonl", "binary", "plain"};
		for (int64_t n = g.range(so.min_ops, so.max_ops); n > 0; --n) {
			std::string sid = std::to_string(g.below(static_cast<uint64_t>(ns)));
			switch (so.streams ? (g.chance(0.1) ? g.below(2) : g.chance(0.15) ? 14 : g.chance(0.1) ? 19 : 12) : g.below(20)) {
			case 0: load(); break;
			case 1: if (!gs.empty()) { make(); } break;
			case 2: case 3: case 4: case 5: if (as.empty()) { break; } {
				ss.push_back(name('s'));
				sc.ops.push_back(Op("x", T, "S", ss.back(), g.pick(as), sid, std::to_string(g.below(4)), deps ? "1" : "0"));
				if (g.chance(0.7)) { sc.ops.push_back(Op("x", T, "R", ss.back())); }
				if (g.chance(0.6)) { sc.ops.push_back(Op("x", T, "D", ss.back(), std::to_string(g.below(4)))); }
				break;
			}
			case 6: case 7: if (!ss.empty()) { sc.ops.push_back(Op("x", T, "R", g.pick(ss))); } break;
			case 8: case 9: case 10: if (!ss.empty()) { sc.ops.push_back(Op("x", T, "D", g.pick(ss), std::to_string(g.below(4)))); } break;
			case 11: if (!ss.empty() && !as.empty()) { auto n2 = name('s'); sc.ops.push_back(Op("x", T, "C", n2, g.pick(ss), g.pick(as))); ss.push_back(n2); } break;
			case 12: case 13: if (!deps) { static const std::vector<std::string> H = {"stream", "file", "buffer"}; if (!as.empty()) { sc.ops.push_back(Op("x", T, "T", g.pick(as), sid, g.pick(H))); } break; }
			case 14: sc.ops.push_back(Op("x", T, "V", g.pick(F), g.pick(O), sid)); break;
			case 15: if (g.chance(0.4)) { sc.ops.push_back(Op("x", T, "W", sid)); } else { sc.ops.push_back(Op("x", T, "P", sid, g.pick(F))); } break;
			case 16: if (so.bad) {
				static const std::vector<std::string> K = {"nofile", "short", "shortbuf", "badfile", "badbuf", "cutbin", "badtag"};
				Op b("x", T, "B", g.pick(K));
				if (b.s(2) == "cutbin") { b.a.push_back(std::to_string(g.below(static_cast<uint64_t>(ng)))); b.a.push_back(std::to_string(g.below(100000))); }
				if (b.s(2) == "badtag") { if (as.empty()) { break; } b.a.push_back(g.pick(as)); }
				sc.ops.push_back(b);
			} break;
			default: { // free something
				auto& v = g.chance(0.6) ? ss : g.chance(0.6) ? as : gs;
				if (v.empty()) { break; }
				size_t k = g.below(v.size());
				sc.ops.push_back(Op("x", T, "F", v[k]));
				if (&v == &ss) { v.erase(v.begin() + static_cast<long>(k)); }
				break;
			}
			}
		}
		for (auto& s : ss) { if (g.chance(0.5)) { sc.ops.push_back(Op("x", T, "D", s, "0")); } }
		if (g.chance(0.7)) { for (auto v : {&ss, &as, &gs}) { for (auto& s : *v) { sc.ops.push_back(Op("x", T, "F", s)); } } }
	}
}
} // namespace sim
