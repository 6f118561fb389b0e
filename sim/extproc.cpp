// Simulated external program: pipes, fork/exec/wait, and the other party of the
// EXTERNAL rule protocol, all inside the tool's own simulated process.
#include "internal.hpp"
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <sys/types.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>

extern "C" {
pid_t __real_fork();
int __real_pipe(int*);
int __real_dup2(int, int);
int __real_close(int);
int __real_execv(const char*, char* const*);
pid_t __real_waitpid(pid_t, int*, int);
FILE* __real_fdopen(int, const char*);
int __real_system(const char*);
int __real_kill(pid_t, int);
void __real_exit(int) __attribute__((noreturn));
}

namespace sim {
namespace {
constexpr int FD0 = 1000;
struct Pipe { std::string buf; int readers = 0, writers = 0; };
struct End { Pipe* p = nullptr; bool wr = false; };
using Tab = std::map<int, End>;

struct Child {
	int pid = 0, idx = 0;
	void say(const std::string& t) { in::note("EXT" + std::to_string(idx) + " " + t); }
	Tab fds;
	bool execed = false, dead = false, reaped = false;
	int status = 0;
	std::string cmd;
	// protocol actor
	std::string inbuf, outq;
	bool versioned = false, shut = false, eof_seen = false, closing = false;
	int64_t req = 0;
	size_t die_after_out = SIZE_MAX, out_sent = 0;
};

struct World {
	ProcPlan plan;
	Rng rng{1};
	Tab tab;
	int next_fd = FD0;
	std::vector<Child*> kids;
	Child* in_child = nullptr;
	int64_t nfork = 0, npipe = 0, nwait = 0;
	ucontext_t ctx, alt, dummy;
	volatile int phase = 0;
	int ret_pid = 0;
	char* lo = nullptr;
	char stack_copy[8192];
	char alt_stack[65536];
};
World* W = nullptr;

void end_inc(End& e) { (e.wr ? e.p->writers : e.p->readers)++; }
void end_dec(End& e) { (e.wr ? e.p->writers : e.p->readers)--; }
Tab& cur_tab() { return W->in_child ? W->in_child->fds : W->tab; }

void child_exit(Child* c, int status, const char* why) {
	if (c->dead) { return; }
	c->dead = true;
	c->status = status;
	for (auto& [fd, e] : c->fds) { end_dec(e); }
	c->fds.clear();
	in::log(std::string("ext: child exit ") + why);
	c->say(std::string("exit ") + why);
}

// ------------------------------------------------ protocol codec ------------
struct Cur {
	const std::string& s;
	size_t p, e;
	bool bad = false;
	uint32_t u32() { if (e - p < 4 || bad) { bad = true; return 0; } uint32_t v; memcpy(&v, s.data() + p, 4); p += 4; return v; }
	std::string str() {
		if (e - p < 2 || bad) { bad = true; return {}; }
		uint16_t n;
		memcpy(&n, s.data() + p, 2);
		p += 2;
		if (e - p < n) { bad = true; return {}; }
		std::string r = s.substr(p, n);
		p += n;
		return r;
	}
};
void p32(std::string& o, uint32_t v) { o.append(reinterpret_cast<char*>(&v), 4); }
void pstr(std::string& o, const std::string& s) { uint16_t n = static_cast<uint16_t>(s.size()); o.append(reinterpret_cast<char*>(&n), 2); o += s; }

struct R { uint32_t flags = 0; std::string base; std::vector<std::string> tags; };
struct C { uint32_t num = 0, flags = 0, parent = 0; std::string wf, text; std::vector<R> rs; };
struct Wd { uint32_t num = 0; std::vector<C> cs; };

bool decode(const std::string& b, Wd& w, std::string& why) {
	Cur k{b, 0, b.size()};
	w.num = k.u32();
	uint32_t n = k.u32();
	if (n > 100000) { why = "cohort count"; return false; }
	for (uint32_t i = 0; i < n; ++i) {
		uint32_t len = k.u32();
		if (k.bad || k.e - k.p < len) { why = "cohort length"; return false; }
		Cur q{b, k.p, k.p + len};
		k.p += len;
		C c;
		c.num = q.u32();
		c.flags = q.u32();
		if (c.flags & 2) { c.parent = q.u32(); }
		c.wf = q.str();
		uint32_t m = q.u32();
		if (q.bad || m > 100000) { why = "reading count"; return false; }
		for (uint32_t j = 0; j < m; ++j) {
			uint32_t rl = q.u32();
			if (q.bad || q.e - q.p < rl) { why = "reading length"; return false; }
			Cur z{b, q.p, q.p + rl};
			q.p += rl;
			R r;
			r.flags = z.u32();
			if (r.flags & 8) { r.base = z.str(); }
			uint32_t t = z.u32();
			if (z.bad || t > 100000) { why = "tag count"; return false; }
			for (uint32_t x = 0; x < t; ++x) { r.tags.push_back(z.str()); }
			if (z.bad || z.p != z.e) { why = "reading has stray bytes"; return false; }
			c.rs.push_back(std::move(r));
		}
		if (c.flags & 1) { c.text = q.str(); }
		if (q.bad || q.p != q.e) { why = "cohort has stray bytes"; return false; }
		if (c.flags & ~3u) { why = "unknown cohort flags"; return false; }
		w.cs.push_back(std::move(c));
	}
	if (k.bad || k.p != k.e) { why = "window has stray bytes"; return false; }
	return true;
}
std::string encode(const Wd& w, int cohort_count_delta, int reading_count_delta, int bad_cohort) {
	std::string b;
	p32(b, w.num);
	p32(b, static_cast<uint32_t>(static_cast<int>(w.cs.size()) + cohort_count_delta));
	int ci = 0;
	for (auto& c : w.cs) {
		std::string q;
		p32(q, c.num + (ci == bad_cohort ? 1000 : 0));
		p32(q, c.flags);
		if (c.flags & 2) { p32(q, c.parent); }
		pstr(q, c.wf);
		p32(q, static_cast<uint32_t>(static_cast<int>(c.rs.size()) + (ci == static_cast<int>(w.cs.size()) - 1 ? reading_count_delta : 0)));
		for (auto& r : c.rs) {
			std::string z;
			p32(z, r.flags);
			if (r.flags & 8) { pstr(z, r.base); }
			p32(z, static_cast<uint32_t>(r.tags.size()));
			for (auto& t : r.tags) { pstr(z, t); }
			p32(q, static_cast<uint32_t>(z.size()));
			q += z;
		}
		if (c.flags & 1) { pstr(q, c.text); }
		p32(b, static_cast<uint32_t>(q.size()));
		b += q;
		++ci;
	}
	std::string o;
	p32(o, static_cast<uint32_t>(b.size()));
	return o + b;
}
std::string canon(const Wd& w) {
	std::string r = "w=" + std::to_string(w.num) + " n=" + std::to_string(w.cs.size());
	for (auto& c : w.cs) {
		r += " C num=" + std::to_string(c.num) + " f=" + std::to_string(c.flags) + " p=" + std::to_string(c.parent) + " wf=" + esc(c.wf) + " t=" + esc(c.text);
		for (auto& x : c.rs) {
			r += " R f=" + std::to_string(x.flags) + " b=" + esc(x.base) + " k=" + std::to_string(x.tags.size());
			for (auto& t : x.tags) { r += " g=" + esc(t); }
		}
	}
	return r;
}

// the external program's answer to one window
std::string answer(Child* c, Wd w) {
	auto& pl = W->plan;
	Rng g(mix(pl.seed, static_cast<uint64_t>(c->req) + 17));
	bool fault_here = !pl.fault.empty() && pl.fault_window == c->req;
	std::string mode = pl.mode;
	if (mode == "mixed") {
		static const char* ms[] = {"null", "echo", "addtag", "edit", "edit", "wordform"};
		mode = ms[g.below(6)];
	}
	if (mode == "null" && !fault_here) { c->say("rep null"); std::string o; p32(o, 0); return o; }
	for (auto& r : w.cs) {
		for (auto& x : r.rs) { x.flags &= ~1u; }
	}
	if (mode == "addtag") {
		for (auto& co : w.cs) {
			for (auto& x : co.rs) {
				bool mapped = false;
				for (auto& t : x.tags) { mapped |= t[0] == '@'; }
				if (mapped) { continue; }
				x.flags |= 1;
				x.tags.push_back("@x" + std::to_string(w.num % 10));
			}
		}
	}
	else if (mode == "edit" || mode == "wordform") {
		for (auto& co : w.cs) {
			for (auto& x : co.rs) {
				if (!g.chance(0.6)) { continue; }
				x.flags |= 1;
				switch (g.below(4)) {
				case 0: x.tags.push_back("<ext" + std::to_string(g.below(5)) + ">"); break;
				case 1: if (!x.tags.empty()) { x.tags.pop_back(); } break;
				case 2: x.base = "\"lem" + std::to_string(g.below(9)) + "\""; x.flags |= 8; break;
				case 3: x.tags.insert(x.tags.begin(), "N" + std::to_string(g.below(9))); break;
				}
			}
			if (mode == "wordform" && g.chance(0.5)) { co.wf = "\"<wf" + std::to_string(g.below(9)) + ">\""; }
			if (g.chance(0.3)) { co.text = " txt" + std::to_string(g.below(9)) + "\n"; co.flags |= 1; }
		}
	}
	int cd = 0, rd = 0, bc = -1;
	if (fault_here) {
		if (pl.fault == "wrong_window") { w.num += 1; }
		if (pl.fault == "wrong_cohort") { bc = static_cast<int>(g.below(w.cs.size())); }
		if (pl.fault == "extra_cohorts") { cd = 1 + static_cast<int>(g.below(50)); }
		if (pl.fault == "extra_readings") { rd = 1 + static_cast<int>(g.below(50)); }
		if (pl.fault == "fewer_cohorts") { w.cs.pop_back(); }
		if (pl.fault == "fewer_readings") { for (auto& co : w.cs) { if (!co.rs.empty()) { co.rs.pop_back(); break; } } }
		if (pl.fault == "fewer_declared") { cd = -1; }
		if (pl.fault == "bad_utf8") { for (auto& co : w.cs) { for (auto& x : co.rs) { x.flags |= 1; x.tags.push_back("a\xff\xfe"); } } }
		if (pl.fault == "bad_wordform") { w.cs[0].wf = "\"<\xc3>\""; }
		in::count(("fault.ext_" + pl.fault).c_str());
	}
	c->say("rep " + canon(w));
	std::string o = encode(w, cd, rd, bc);
	if (fault_here && pl.fault == "cut_inside" && o.size() > 20) { // a shorter packet that is consistent on the outside only
		o.resize(16 + g.below(o.size() - 17));
		uint32_t v = static_cast<uint32_t>(o.size() - 4);
		memcpy(o.data(), &v, 4);
	}
	if (fault_here && pl.fault == "padded") {
		o += std::string(1 + g.below(40), 'p');
		uint32_t v = static_cast<uint32_t>(o.size() - 4);
		memcpy(o.data(), &v, 4);
	}
	if (fault_here && pl.fault == "cohort_length") { uint32_t v; memcpy(&v, o.data() + 12, 4); v += g.chance(0.5) ? 1 + static_cast<uint32_t>(g.below(9)) : 0x40000000u; memcpy(o.data() + 12, &v, 4); }
	if (fault_here && pl.fault == "flip") { // anything may come of it, but nothing bad
		for (uint64_t n = 1 + g.below(4); n > 0; --n) { o[4 + g.below(o.size() - 4)] = static_cast<char>(g.next()); }
	}
	if (fault_here && pl.fault == "huge_length") { uint32_t v = 0x7ffffff0; memcpy(o.data(), &v, 4); }
	if (fault_here && (pl.fault == "extra_cohorts" || pl.fault == "extra_readings")) {
		// plausible further bytes behind the lie: the same last cohort again and again
		std::string more;
		for (int i = 0; i < 60; ++i) { more += o.substr(12); }
		o += more;
	}
	return o;
}

Pipe* child_in(Child* c) { auto it = c->fds.find(0); return it == c->fds.end() || it->second.wr ? nullptr : it->second.p; }
Pipe* child_out(Child* c) { auto it = c->fds.find(1); return it == c->fds.end() || !it->second.wr ? nullptr : it->second.p; }

bool step_child(Child* c) { // one scheduling quantum; true if anything happened
	if (c->dead || !c->execed) { return false; }
	auto& pl = W->plan;
	in::HarnessScope h;
	bool prog = false;
	if (pl.fault == "die_before" && pl.fault_window <= 0) { in::count("fault.ext_die_before"); child_exit(c, 1 << 8, "fault"); return true; }
	Pipe* ip = child_in(c);
	Pipe* op = child_out(c);
	if (ip && !op && c->req) { // deaf: reads on without answering
		bool any = !ip->buf.empty();
		ip->buf.clear();
		if (ip->writers == 0) { child_exit(c, 0, "eof"); return true; }
		return any;
	}
	if (!ip || !op) { c->say("stdio not connected"); child_exit(c, 1 << 8, "stdio"); return true; }
	// push pending output
	if (!c->outq.empty()) {
		if (op->readers == 0) { child_exit(c, SIGPIPE, "sigpipe"); return true; }
		size_t room = pl.pipe_cap > op->buf.size() ? pl.pipe_cap - op->buf.size() : 0;
		size_t n = std::min(room, c->outq.size());
		if (pl.partial && n > 1) { n = 1 + W->rng.below(n); in::count("fault.pipe_partial"); }
		n = std::min(n, c->die_after_out - std::min(c->die_after_out, c->out_sent));
		if (n) {
			op->buf.append(c->outq, 0, n);
			c->outq.erase(0, n);
			c->out_sent += n;
			prog = true;
		}
		if (c->out_sent >= c->die_after_out) { in::count("fault.ext_die_mid_reply"); child_exit(c, 1 << 8, "fault"); return true; }
		if (!c->outq.empty()) { return prog; } // blocked on its stdout
	}
	if (c->closing && c->outq.empty()) {
		c->closing = false;
		c->say("closes its output");
		end_dec(c->fds[1]);
		c->fds.erase(1);
		return true;
	}
	// read
	if (!ip->buf.empty()) {
		size_t n = ip->buf.size();
		if (pl.partial && n > 1) { n = 1 + W->rng.below(n); in::count("fault.pipe_partial"); }
		c->inbuf.append(ip->buf, 0, n);
		ip->buf.erase(0, n);
		prog = true;
	}
	else if (ip->writers == 0 && !c->eof_seen) {
		c->eof_seen = true;
		if (!c->inbuf.empty()) { c->say("malformed: stream ends inside a message"); }
		c->say("eof");
		child_exit(c, 0, "eof");
		return true;
	}
	for (;;) {
		if (!c->versioned) {
			if (c->inbuf.size() < 4) { break; }
			uint32_t v;
			memcpy(&v, c->inbuf.data(), 4);
			c->inbuf.erase(0, 4);
			c->versioned = true;
			c->say("version " + std::to_string(v));
			continue;
		}
		if (c->inbuf.size() < 4) { break; }
		uint32_t len;
		memcpy(&len, c->inbuf.data(), 4);
		if (len == 0) {
			c->inbuf.erase(0, 4);
			c->shut = true;
			c->say("null request");
			continue;
		}
		if (len > (64u << 20)) { c->say("malformed: length " + std::to_string(len)); child_exit(c, 2 << 8, "malformed"); return true; }
		if (c->inbuf.size() < 4 + static_cast<size_t>(len)) { break; }
		Wd w;
		std::string why, body = c->inbuf.substr(4, len);
		c->inbuf.erase(0, 4 + static_cast<size_t>(len));
		if (!decode(body, w, why)) { c->say("malformed: " + why); child_exit(c, 2 << 8, "malformed"); return true; }
		if (!c->outq.empty()) { c->say("malformed: request before the previous reply was taken"); }
		c->say("req " + canon(w));
		in::log("ext: request");
		prog = true;
		if (!pl.fault.empty() && pl.fault_window == c->req) {
			if (pl.fault == "die_after_read") { in::count("fault.ext_die_after_read"); child_exit(c, 1 << 8, "fault"); return true; }
		}
		std::string a = answer(c, w);
		if (pl.fault == "die_mid_reply" && pl.fault_window == c->req) {
			c->die_after_out = c->out_sent + 1 + mix(pl.seed, 5) % std::max<size_t>(1, a.size() - 1);
		}
		c->outq += a;
		if (pl.fault_window == c->req && (pl.fault == "close_mid" || pl.fault == "huge_length" || pl.fault == "flip" || pl.fault == "cohort_length")) {
			if (pl.fault == "close_mid") { c->outq.resize(c->outq.size() - 1 - mix(pl.seed, 6) % std::max<size_t>(1, a.size() - 1)); in::count("fault.ext_close_mid"); }
			c->closing = true; // says no more, but goes on reading
		}
		++c->req;
		break;
	}
	return prog;
}
bool step_any() {
	bool p = false;
	for (auto c : W->kids) { p |= step_child(c); }
	if (p) { in::advance_us(30); g_shm->log_hash = mix(g_shm->log_hash, 77); }
	return p;
}

// ------------------------------------------------ FILE* over a pipe end -----
struct Cookie { int fd; };
ssize_t ck_read(void* ck, char* b, size_t n) {
	in::HarnessScope h;
	auto it = W->tab.find(static_cast<Cookie*>(ck)->fd);
	if (it == W->tab.end() || it->second.wr) { errno = EBADF; return -1; }
	Pipe* p = it->second.p;
	while (p->buf.empty()) {
		if (p->writers == 0) { return 0; }
		if (!step_any()) {
			in::log("deadlock: tool waits for a reply that cannot come");
			in::stop(Kind::Deadlock);
		}
	}
	size_t m = std::min(n, p->buf.size());
	if (W->plan.partial && m > 1) { m = 1 + W->rng.below(m); }
	memcpy(b, p->buf.data(), m);
	p->buf.erase(0, m);
	return static_cast<ssize_t>(m);
}
ssize_t ck_write(void* ck, const char* b, size_t n) {
	in::HarnessScope h;
	auto it = W->tab.find(static_cast<Cookie*>(ck)->fd);
	if (it == W->tab.end() || !it->second.wr) { errno = EBADF; return 0; }
	Pipe* p = it->second.p;
	size_t done = 0;
	while (done < n) {
		if (p->readers == 0) {
			in::count("fault.sigpipe");
			in::log("tool writes to a dead external");
			raise(SIGPIPE);
			errno = EPIPE;
			return 0;
		}
		size_t room = W->plan.pipe_cap > p->buf.size() ? W->plan.pipe_cap - p->buf.size() : 0;
		size_t m = std::min(room, n - done);
		if (m == 0) {
			in::count("pipe_full");
			if (!step_any()) {
				in::log("deadlock: both pipes full");
				in::stop(Kind::Deadlock);
			}
			continue;
		}
		p->buf.append(b + done, m);
		done += m;
		if (W->rng.chance(0.5)) { step_any(); }
	}
	return static_cast<ssize_t>(n);
}
int sim_close(int fd) {
	auto& t = cur_tab();
	auto it = t.find(fd);
	if (it == t.end()) { errno = EBADF; in::note("EXT close of unknown descriptor"); return -1; }
	end_dec(it->second);
	t.erase(it);
	return 0;
}
int ck_close(void* ck) {
	in::HarnessScope h;
	int fd = static_cast<Cookie*>(ck)->fd;
	delete static_cast<Cookie*>(ck);
	return sim_close(fd);
}

// ------------------------------------------------ fork ----------------------
void restore_parent() {
	memcpy(W->lo, W->stack_copy, sizeof(W->stack_copy));
	W->phase = 2;
	setcontext(&W->ctx);
}
[[noreturn]] void back_to_parent() {
	W->in_child = nullptr;
	getcontext(&W->alt);
	W->alt.uc_stack.ss_sp = W->alt_stack;
	W->alt.uc_stack.ss_size = sizeof(W->alt_stack);
	W->alt.uc_link = nullptr;
	makecontext(&W->alt, restore_parent, 0);
	setcontext(&W->alt);
	abort();
}
} // namespace

void extproc_begin(const ProcPlan& p) {
	W = new World;
	W->plan = p;
	W->rng = Rng(p.seed ^ 0xE87);
}
} // namespace sim

using namespace sim;

extern "C" int __wrap_pipe(int* f) {
	if (!g_in_sim) { return __real_pipe(f); }
	in::HarnessScope h;
	if (++W->npipe == W->plan.fail_pipe) { in::count("fault.pipe_emfile"); errno = EMFILE; return -1; }
	auto p = new Pipe;
	p->readers = p->writers = 1;
	f[0] = W->next_fd++;
	f[1] = W->next_fd++;
	cur_tab()[f[0]] = End{p, false};
	cur_tab()[f[1]] = End{p, true};
	return 0;
}
extern "C" int __wrap_close(int fd) {
	if (!g_in_sim || (fd < FD0 && !W->in_child)) { return __real_close(fd); }
	in::HarnessScope h;
	return sim_close(fd);
}
extern "C" int __wrap_dup2(int a, int b) {
	if (!g_in_sim) { return __real_dup2(a, b); }
	in::HarnessScope h;
	auto& t = cur_tab();
	auto it = t.find(a);
	if (it == t.end()) {
		if (!W->in_child && a < FD0) { return __real_dup2(a, b); }
		errno = EBADF;
		return -1;
	}
	if (a == b) { return b; }
	End e = it->second;
	auto o = t.find(b);
	if (o != t.end()) { end_dec(o->second); }
	end_inc(e);
	t[b] = e;
	return b;
}
extern "C" FILE* __wrap_fdopen(int fd, const char* mode) {
	if (!g_in_sim || fd < FD0) { return __real_fdopen(fd, mode); }
	in::HarnessScope h;
	cookie_io_functions_t io = {ck_read, ck_write, nullptr, ck_close};
	return fopencookie(new Cookie{fd}, mode, io);
}
extern "C" __attribute__((noinline, returns_twice)) pid_t __wrap_fork() {
	if (!g_in_sim) { return __real_fork(); }
	if (++W->nfork == W->plan.fail_fork) { in::count("fault.fork_eagain"); errno = EAGAIN; return -1; }
	{
		in::HarnessScope h;
		auto c = new Child;
		c->pid = 40000 + static_cast<int>(W->kids.size());
		c->idx = static_cast<int>(W->kids.size());
		c->fds = W->tab;
		for (auto& [fd, e] : c->fds) { end_inc(e); }
		W->kids.push_back(c);
		W->in_child = c;
		W->ret_pid = c->pid;
	}
	W->lo = static_cast<char*>(__builtin_frame_address(0)) - 512;
	W->phase = 1;
	getcontext(&W->ctx);
	if (W->phase == 2) { return W->ret_pid; }
	memcpy(W->stack_copy, W->lo, sizeof(W->stack_copy));
	return 0;
}
extern "C" int __wrap_execv(const char* p, char* const* av) {
	if (!g_in_sim) { return __real_execv(p, av); }
	if (!W->in_child) { in::note("ESCAPE execv outside a child"); errno = EPERM; return -1; }
	{
		in::HarnessScope h;
		auto c = W->in_child;
		c->execed = true;
		c->cmd = av[0] && av[1] && av[2] ? av[2] : "";
		c->say("start " + c->cmd);
		in::log("ext: start " + c->cmd);
	}
	back_to_parent();
}
static void leave(int code, bool quick) {
	if (g_in_sim && W && W->in_child) {
		child_exit(W->in_child, (code & 0xff) << 8, "exec failed");
		back_to_parent();
	}
	if (g_in_sim) { g_shm->steps = g_steps; }
	if (quick) { __real__exit(code); }
	__real_exit(code);
}
extern "C" void __wrap_exit(int code) { leave(code, false); __builtin_unreachable(); }
extern "C" void __wrap__exit(int code) { leave(code, true); __builtin_unreachable(); }

extern "C" int __wrap_kill(pid_t pid, int sig) {
	if (!g_in_sim) { return __real_kill(pid, sig); }
	in::HarnessScope h;
	for (auto c : W->kids) {
		if (c->pid == pid) {
			if (sig && !c->dead) { c->say("killed"); child_exit(c, sig, "killed"); }
			return 0;
		}
	}
	in::note("ESCAPE kill");
	errno = ESRCH;
	return -1;
}
extern "C" int __wrap_system(const char* cmd) {
	if (!g_in_sim) { return __real_system(cmd); }
	in::HarnessScope h;
	int pid = 0;
	if (cmd && sscanf(cmd, "kill -9 %d", &pid) == 1) { return __wrap_kill(pid, SIGKILL) ? 256 : 0; }
	if (cmd && sscanf(cmd, "kill -TERM %d", &pid) == 1) { return __wrap_kill(pid, SIGTERM) ? 256 : 0; }
	in::note(std::string("ESCAPE system ") + (cmd ? cmd : ""));
	return -1;
}
extern "C" pid_t __wrap_waitpid(pid_t pid, int* st, int opt) {
	if (!g_in_sim) { return __real_waitpid(pid, st, opt); }
	in::HarnessScope h;
	if (W->plan.partial && (W->nwait++ % 2) == 0) { in::count("fault.waitpid_eintr"); errno = EINTR; return -1; }
	for (auto c : W->kids) {
		if (c->pid != pid) { continue; }
		if (c->reaped) { break; }
		while (!c->dead) {
			if (opt & WNOHANG) { return 0; }
			if (!step_any()) { in::log("deadlock: waiting for an external that never exits"); in::stop(Kind::Deadlock); }
		}
		c->reaped = true;
		c->say("reaped");
		if (st) { *st = c->status; }
		return pid;
	}
	errno = ECHILD;
	return -1;
}
