// Seams: standard streams, file descriptors, clock, randomness, sqlite VFS.
#include "internal.hpp"
#include <cerrno>
#include <dlfcn.h>
#include <fcntl.h>
#include <iostream>
#include <sqlite3.h>
#include <streambuf>
#include <sys/uio.h>
#include <unistd.h>

extern "C" {
time_t __real_time(time_t*);
clock_t __real_clock();
int __real_rand();
void __real_srand(unsigned);
int __real_remove(const char*);
}

namespace sim {
namespace {

// ------------------------------------------------------------- stdin --------
// Bytes become available in the deliveries the scenario dictates.  A client
// turn ("stop") withholds everything behind it until the tool comes back for
// more; what is visible on stdout at that moment is recorded.
class InBuf : public std::streambuf {
public:
	std::string_view data;
	const std::vector<uint32_t>* chunks = nullptr;
	const std::vector<size_t>* stops = nullptr;
	bool err = false, ended = false;
	size_t avail = 0, ci = 0, si = 0;
	std::function<void(size_t)> on_wait;

	int_type underflow() override {
		if (gptr() < egptr()) { return traits_type::to_int_type(*gptr()); }
		in::HarnessScope h;
		size_t pos = static_cast<size_t>(gptr() - eback());
		if (!eback()) { pos = 0; }
		if (stops) {
			while (si < stops->size() && (*stops)[si] <= pos) {
				on_wait((*stops)[si]);
				++si;
			}
		}
		if (pos >= data.size()) {
			if (!ended) { in::log("in: eof"); ended = true; }
			g_shm->in_read = data.size();
			return traits_type::eof();
		}
		size_t n = data.size() - pos;
		if (chunks && !chunks->empty()) {
			n = std::min<size_t>(n, std::max<uint32_t>(1, (*chunks)[ci++ % chunks->size()]));
			in::count("fault.short_read");
		}
		if (stops && si < stops->size()) { n = std::min<size_t>(n, (*stops)[si] - pos); }
		avail = pos + n;
		char* b = const_cast<char*>(data.data());
		setg(b, b + pos, b + avail);
		g_shm->in_read = avail;
		in::advance_us(50 + n);
		g_shm->log_hash = mix(g_shm->log_hash, avail * 7 + 1);
		return traits_type::to_int_type(*gptr());
	}
	std::streamsize showmanyc() override { return gptr() < egptr() ? egptr() - gptr() : 0; }
};

// ------------------------------------------------------------- stdout -------
class OutBuf : public std::streambuf {
public:
	size_t cap = 4096;
	int64_t fail_at = -1;
	std::string fail_kind;
	std::string buf;
	bool broken = false;
	bool is_err = false;

	bool device(const char* p, size_t n) { // what the descriptor accepts
		if (is_err) { in::emit_err({p, n}); return true; }
		if (fail_at >= 0 && !(fail_kind == "eio_once" && broken)) {
			size_t room = g_shm->out_len >= static_cast<uint64_t>(fail_at) ? 0 : static_cast<size_t>(fail_at) - g_shm->out_len;
			if (n > room) {
				in::emit({p, room});
				if (!broken) {
					broken = true;
					g_shm->out_failed = 1;
					in::log("out: device failed");
					in::count(fail_kind == "epipe" ? "fault.out_epipe" : fail_kind == "eio_once" ? "fault.out_eio_once" : "fault.out_enospc");
				}
				return false;
			}
		}
		in::emit({p, n});
		g_shm->log_hash = mix(g_shm->log_hash, n * 7 + 2);
		in::advance_us(20 + n);
		return true;
	}
	bool flushbuf() {
		if (buf.empty()) { return !broken || fail_kind == "eio_once"; }
		bool ok = device(buf.data(), buf.size());
		buf.clear();
		return ok;
	}
	int_type overflow(int_type c) override {
		in::HarnessScope h;
		if (c == traits_type::eof()) { return flushbuf() ? 0 : traits_type::eof(); }
		buf += static_cast<char>(c);
		if (buf.size() >= cap && !flushbuf()) { return traits_type::eof(); }
		return c;
	}
	std::streamsize xsputn(const char* s, std::streamsize n) override {
		in::HarnessScope h;
		buf.append(s, static_cast<size_t>(n));
		if (buf.size() >= cap && !flushbuf()) { return 0; }
		return n;
	}
	int sync() override { in::HarnessScope h; return flushbuf() ? 0 : -1; }
};

Rng rnd(1);
const RunSpec* S = nullptr;
} // namespace

void seams_begin(const RunSpec& spec) {
	S = &spec;
	rnd = Rng(spec.rand_seed);
	auto ib = new InBuf;
	ib->data = spec.in;
	ib->chunks = &spec.chunks;
	ib->stops = &spec.stops;
	ib->err = spec.in_error_at_end;
	ib->on_wait = [](size_t pos) {
		if (g_shm->n_waits < MAX_WAITS) { g_shm->waits[g_shm->n_waits++] = FlushEv{g_shm->out_len, pos}; }
		in::log("client waits at " + std::to_string(pos) + " sees " + std::to_string(g_shm->out_len));
		in::advance_us(1000);
	};
	auto ob = new OutBuf;
	ob->cap = spec.outbuf;
	ob->fail_at = spec.out_fail_at;
	ob->fail_kind = spec.out_fail_kind;
	auto eb = new OutBuf;
	eb->cap = 1;
	eb->is_err = true;
	std::cin.rdbuf(ib);
	std::cout.rdbuf(ob);
	std::cerr.rdbuf(eb);
	std::clog.rdbuf(eb);
	if (spec.untie) { std::cin.tie(nullptr); }
	sqlite_begin(spec);
}

// ---------------------------------------------------------- file faults -----
namespace {
struct FdState { uint64_t rd = 0, wr = 0, eintr = 0; };
std::map<int, FdState>* fds = nullptr;

const FsFault* fault_for(int fd, const char* op) {
	if (!g_in_sim || !g_spec || g_spec->fs.empty() || fd < 3) { return nullptr; }
	char lnk[64], path[512];
	snprintf(lnk, sizeof(lnk), "/proc/self/fd/%d", fd);
	auto n = readlink(lnk, path, sizeof(path) - 1);
	if (n <= 0) { return nullptr; }
	path[n] = 0;
	std::string_view p(path, static_cast<size_t>(n));
	for (auto& f : g_spec->fs) {
		if (f.op == op && p.size() >= f.path.size() && p.substr(p.size() - f.path.size()) == f.path) { return &f; }
	}
	return nullptr;
}
using read_t = ssize_t (*)(int, void*, size_t);
using write_t = ssize_t (*)(int, const void*, size_t);
using writev_t = ssize_t (*)(int, const iovec*, int);
read_t real_read() { static read_t f = reinterpret_cast<read_t>(dlsym(RTLD_NEXT, "read")); return f; }
write_t real_write() { static write_t f = reinterpret_cast<write_t>(dlsym(RTLD_NEXT, "write")); return f; }
writev_t real_writev() { static writev_t f = reinterpret_cast<writev_t>(dlsym(RTLD_NEXT, "writev")); return f; }
} // namespace
} // namespace sim

extern "C" ssize_t read(int fd, void* p, size_t n) {
	using namespace sim;
	if (auto f = fault_for(fd, "read")) {
		in::HarnessScope h;
		if (!fds) { fds = new std::map<int, FdState>; }
		auto& st = (*fds)[fd];
		off_t pos = lseek(fd, 0, SEEK_CUR);
		st.rd = pos < 0 ? st.rd : static_cast<uint64_t>(pos);
		if (f->kind == "short") {
			size_t m = std::max<size_t>(1, std::min<size_t>(n, 1 + static_cast<size_t>(f->at)));
			in::count("fault.file_short_read");
			return real_read()(fd, p, m);
		}
		if (f->kind == "eintr") {
			static std::map<int, int>* c = new std::map<int, int>;
			if (((*c)[fd]++ % 2) == 0) { errno = EINTR; in::count("fault.file_eintr"); return -1; }
			return real_read()(fd, p, n);
		}
		if (static_cast<int64_t>(st.rd) >= f->at) {
			in::count("fault.file_read_eio");
			in::log("file read error injected");
			errno = EIO;
			return -1;
		}
		size_t m = std::min<size_t>(n, static_cast<size_t>(f->at) - st.rd);
		return real_read()(fd, p, m);
	}
	return real_read()(fd, p, n);
}
extern "C" ssize_t write(int fd, const void* p, size_t n) {
	using namespace sim;
	if (auto f = fault_for(fd, "write")) {
		in::HarnessScope h;
		if (!fds) { fds = new std::map<int, FdState>; }
		auto& st = (*fds)[fd];
		if (f->kind == "short") {
			in::count("fault.file_short_write");
			return real_write()(fd, p, std::max<size_t>(1, std::min<size_t>(n, 1 + static_cast<size_t>(f->at))));
		}
		if (f->kind == "eintr") {
			if ((st.eintr++ % 2) == 0) { errno = EINTR; in::count("fault.file_eintr"); return -1; }
			return real_write()(fd, p, n);
		}
		if (f->kind == "kill") { // crash of the machine/process in the middle of a write
			if (static_cast<int64_t>(st.wr + n) > f->at) {
				size_t m = static_cast<int64_t>(st.wr) >= f->at ? 0 : static_cast<size_t>(f->at) - st.wr;
				if (m && real_write()(fd, p, m)) {}
				in::count("fault.crash_in_write");
				in::log("crash injected in write");
				in::stop(Kind::Stop);
			}
		}
		else if (static_cast<int64_t>(st.wr + n) > f->at) {
			size_t m = static_cast<int64_t>(st.wr) >= f->at ? 0 : static_cast<size_t>(f->at) - st.wr;
			if (m) { auto w = real_write()(fd, p, m); if (w > 0) { st.wr += static_cast<uint64_t>(w); } return w; }
			in::count(f->kind == "eio" ? "fault.file_write_eio" : "fault.file_write_enospc");
			in::log("file write error injected");
			g_shm->out_failed = 1;
			errno = f->kind == "eio" ? EIO : ENOSPC;
			return -1;
		}
		auto w = real_write()(fd, p, n);
		if (w > 0) { st.wr += static_cast<uint64_t>(w); }
		return w;
	}
	return real_write()(fd, p, n);
}
extern "C" ssize_t writev(int fd, const iovec* v, int c) {
	using namespace sim;
	if (fault_for(fd, "write")) {
		ssize_t t = 0;
		for (int i = 0; i < c; ++i) {
			if (!v[i].iov_len) { continue; }
			auto w = write(fd, v[i].iov_base, v[i].iov_len);
			if (w < 0) { return t ? t : w; }
			t += w;
			if (static_cast<size_t>(w) < v[i].iov_len) { break; }
		}
		return t;
	}
	return real_writev()(fd, v, c);
}

// ------------------------------------------------------- clock and rand -----
extern "C" time_t __wrap_time(time_t* t) {
	using namespace sim;
	if (!g_in_sim) { return __real_time(t); }
	time_t v = static_cast<time_t>(g_spec->epoch + static_cast<int64_t>(g_shm->sim_us / 1000000));
	if (t) { *t = v; }
	in::count("seam.time");
	return v;
}
extern "C" clock_t __wrap_clock() {
	using namespace sim;
	if (!g_in_sim) { return __real_clock(); }
	return static_cast<clock_t>((g_shm->sim_us + static_cast<uint64_t>(g_spec->epoch)) % 100000000);
}
extern "C" int __wrap_rand() {
	using namespace sim;
	if (!g_in_sim) { return __real_rand(); }
	in::count("seam.rand");
	return static_cast<int>(rnd.next() & 0x7fffffff);
}
extern "C" void __wrap_srand(unsigned s) {
	using namespace sim;
	if (!g_in_sim) { __real_srand(s); return; }
	rnd = Rng(mix(g_spec->rand_seed, s));
}
extern "C" int __wrap_remove(const char* p) {
	using namespace sim;
	if (g_in_sim && (p[0] == '/' || strstr(p, ".."))) { in::note(std::string("ESCAPE remove ") + p); errno = EPERM; return -1; }
	return __real_remove(p);
}

// ---------------------------------------------------------- sqlite VFS ------
namespace sim {
namespace {
sqlite3_vfs* base_vfs = nullptr;
int64_t sq_n = 0;
bool sq_dead = false;
struct SFile { sqlite3_file base; const sqlite3_io_methods* pm; };
sqlite3_file* realf(sqlite3_file* f) { return reinterpret_cast<sqlite3_file*>(reinterpret_cast<char*>(f) + sizeof(SFile)); }
bool hit(const char* what) {
	if (!g_spec || g_spec->sq_fault != what) { return false; }
	if (sq_n++ < g_spec->sq_at) { return false; }
	in::HarnessScope h;
	in::count((std::string("fault.sqlite_") + what).c_str());
	in::log(std::string("sqlite fault ") + what);
	sq_dead = true;
	return true;
}
int sClose(sqlite3_file* f) { return realf(f)->pMethods ? realf(f)->pMethods->xClose(realf(f)) : 0; }
int sRead(sqlite3_file* f, void* b, int n, sqlite3_int64 o) {
	if (hit("read")) { return SQLITE_IOERR_READ; }
	return realf(f)->pMethods->xRead(realf(f), b, n, o);
}
int sWrite(sqlite3_file* f, const void* b, int n, sqlite3_int64 o) {
	if (hit("write")) { return SQLITE_FULL; }
	if (hit("kill")) { in::stop(Kind::Stop); }
	if (hit("torn")) { realf(f)->pMethods->xWrite(realf(f), b, n / 2, o); in::stop(Kind::Stop); }
	return realf(f)->pMethods->xWrite(realf(f), b, n, o);
}
int sTrunc(sqlite3_file* f, sqlite3_int64 n) { return realf(f)->pMethods->xTruncate(realf(f), n); }
int sSync(sqlite3_file* f, int fl) { return realf(f)->pMethods->xSync(realf(f), fl); }
int sSize(sqlite3_file* f, sqlite3_int64* n) { return realf(f)->pMethods->xFileSize(realf(f), n); }
int sLock(sqlite3_file* f, int l) { return realf(f)->pMethods->xLock(realf(f), l); }
int sUnlock(sqlite3_file* f, int l) { return realf(f)->pMethods->xUnlock(realf(f), l); }
int sCheck(sqlite3_file* f, int* r) { return realf(f)->pMethods->xCheckReservedLock(realf(f), r); }
int sCtl(sqlite3_file* f, int op, void* a) { return realf(f)->pMethods->xFileControl(realf(f), op, a); }
int sSector(sqlite3_file* f) { return realf(f)->pMethods->xSectorSize(realf(f)); }
int sDev(sqlite3_file* f) { return realf(f)->pMethods->xDeviceCharacteristics(realf(f)); }
const sqlite3_io_methods SM = {1, sClose, sRead, sWrite, sTrunc, sSync, sSize, sLock, sUnlock, sCheck, sCtl, sSector, sDev,
	nullptr, nullptr, nullptr, nullptr, nullptr, nullptr};
int vOpen(sqlite3_vfs*, const char* z, sqlite3_file* f, int fl, int* out) {
	auto sf = reinterpret_cast<SFile*>(f);
	sf->base.pMethods = nullptr;
	if (hit("open")) { return SQLITE_CANTOPEN; }
	int r = base_vfs->xOpen(base_vfs, z, realf(f), fl, out);
	if (r == SQLITE_OK) { sf->base.pMethods = &SM; }
	return r;
}
int vDel(sqlite3_vfs*, const char* z, int s) { return base_vfs->xDelete(base_vfs, z, s); }
int vAcc(sqlite3_vfs*, const char* z, int fl, int* o) { return base_vfs->xAccess(base_vfs, z, fl, o); }
int vFull(sqlite3_vfs*, const char* z, int n, char* o) { return base_vfs->xFullPathname(base_vfs, z, n, o); }
int vRand(sqlite3_vfs*, int n, char* o) { for (int i = 0; i < n; ++i) { o[i] = static_cast<char>(rnd.next()); } return n; }
int vSleep(sqlite3_vfs*, int us) { in::advance_us(static_cast<uint64_t>(us)); return us; }
int vTime(sqlite3_vfs*, double* t) { *t = 2440587.5 + static_cast<double>(g_spec->epoch) / 86400.0; return 0; }
int vTime64(sqlite3_vfs*, sqlite3_int64* t) { *t = 210866760000000ll + g_spec->epoch * 1000; return 0; }
int vErr(sqlite3_vfs*, int n, char* z) { return base_vfs->xGetLastError ? base_vfs->xGetLastError(base_vfs, n, z) : 0; }
sqlite3_vfs V;
} // namespace

void sqlite_begin(const RunSpec&) {
	base_vfs = sqlite3_vfs_find("unix-none");
	if (!base_vfs) { base_vfs = sqlite3_vfs_find(nullptr); }
	V = *base_vfs;
	V.iVersion = 2;
	V.szOsFile = static_cast<int>(sizeof(SFile)) + base_vfs->szOsFile;
	V.pNext = nullptr;
	V.zName = "cg3sim";
	V.pAppData = nullptr;
	V.xOpen = vOpen; V.xDelete = vDel; V.xAccess = vAcc; V.xFullPathname = vFull;
	V.xRandomness = vRand; V.xSleep = vSleep; V.xCurrentTime = vTime; V.xGetLastError = vErr; V.xCurrentTimeInt64 = vTime64;
	sq_n = 0;
	sq_dead = false;
	sqlite3_vfs_register(&V, 1);
}
} // namespace sim
