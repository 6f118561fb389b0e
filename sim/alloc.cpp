// Seeded allocator behind operator new/delete: the addresses the tool sees, the
// reuse order, and the contents of fresh and freed memory are chosen by the
// scenario; the n-th allocation can be made to fail.
#include "internal.hpp"
#include <algorithm>
#include <cstdlib>
#include <execinfo.h>
#include <fcntl.h>
#include <malloc.h>
#include <new>
#include <sys/mman.h>

extern "C" int __real_close(int);
namespace sim {
int g_alloc_bypass = 0;
static const char* const g_oom_trace = getenv("CG3SIM_OOM_BT");

namespace {
void oom_trace() { // for people: where the failing allocation was made
	if (!g_oom_trace) { return; }
	++g_alloc_bypass;
	void* b[40];
	int n = backtrace(b, 40);
	int fd = open(g_oom_trace, O_CREAT | O_WRONLY | O_TRUNC, 0644);
	backtrace_symbols_fd(b, n, fd);
	__real_close(fd);
	--g_alloc_bypass;
}
constexpr uintptr_t ARENA = 0x200000000000ull;
constexpr size_t ARENA_SZ = 6ull << 30;
constexpr size_t NCLS = 64 + 40;
struct Hdr { uint32_t cls; uint32_t magic; uint32_t freefill; uint32_t pad; uint64_t size; uint64_t pad2; };
constexpr uint64_t CANARY = 0x5AFEC63AC63A5AFEull;
[[noreturn]] void corrupt(const char* what) {
	in::emit_err(std::string("simulator: ") + what + "\n");
	in::log(what);
	abort();
}
uint32_t mode = 0, fill = 0xA5, policy = 0;
Rng rng(1);
uintptr_t bump = 0;
struct List { void** v = nullptr; size_t n = 0, cap = 0, head = 0; };
List freel[NCLS];
int64_t oom_at = -1, oom_count = 0;

size_t cls_of(size_t sz, size_t& real) {
	if (sz <= 1024) { size_t c = (sz + 15) / 16; real = c * 16; return c; }
	size_t c = 65, r = 2048;
	while (r < sz) { r <<= 1; ++c; }
	real = r;
	return c;
}
void push(List& l, void* p) {
	if (l.n + l.head == l.cap) {
		if (l.head > l.cap / 2 && l.cap) { memmove(l.v, l.v + l.head, l.n * sizeof(void*)); l.head = 0; }
		else { l.cap = l.cap ? l.cap * 2 : 64; l.v = static_cast<void**>(realloc(l.v, l.cap * sizeof(void*))); }
	}
	l.v[l.head + l.n++] = p;
}
uint32_t fillmem(void* p, size_t n) {
	uint32_t c = fill == 256 ? static_cast<unsigned char>(rng.next()) : fill;
	memset(p, static_cast<int>(c), n);
	return c;
}
void* arena_alloc(size_t sz) {
	size_t real;
	size_t c = cls_of(sz + sizeof(CANARY), real);
	List& l = freel[c];
	if (l.n == 0) {
		// refill: a batch of slots at a scenario-chosen distance, in scenario-chosen order
		size_t batch = real >= 4096 ? 1 : (policy == 2 ? 1 + rng.below(24) : 16);
		if (policy == 2) { bump += rng.below(8) * 64; }
		uintptr_t base = bump;
		size_t step = (real + sizeof(Hdr) + 15) & ~size_t(15);
		bump += batch * step;
		if (bump > ARENA + ARENA_SZ) { return nullptr; }
		for (size_t i = 0; i < batch; ++i) { push(l, reinterpret_cast<void*>(base + i * step)); }
		if (policy == 2) {
			for (size_t i = l.n; i > 1; --i) { std::swap(l.v[l.head + i - 1], l.v[l.head + rng.below(i)]); }
		}
	}
	void* p;
	if (policy == 0) { p = l.v[l.head + --l.n]; }
	else if (policy == 1) { p = l.v[l.head++]; --l.n; }
	else { size_t i = l.head + rng.below(l.n); std::swap(l.v[i], l.v[l.head + l.n - 1]); p = l.v[l.head + --l.n]; }
	auto h = static_cast<Hdr*>(p);
	if (h->magic == 0xF4EEF4EE) {
		// nobody may have written to it since it was freed
		auto b = reinterpret_cast<unsigned char*>(h + 1);
		size_t n = std::min<size_t>(h->size, 4096);
		for (size_t i = 0; i < n; ++i) { if (b[i] != h->freefill) { corrupt("heap corruption: freed memory was written to"); } }
	}
	h->cls = static_cast<uint32_t>(c);
	h->magic = 0xC63A110C;
	h->size = sz;
	void* u = h + 1;
	fillmem(u, real);
	memcpy(static_cast<char*>(u) + sz, &CANARY, sizeof(CANARY));
	return u;
}
// Policy 3: some allocations end at a page that cannot be touched, and are never to be touched again once freed
constexpr uintptr_t GUARDED = 0x300000000000ull;
constexpr size_t GUARDED_SZ = 1ull << 30;
constexpr size_t PAGE = 4096;
uintptr_t gbump = 0;
size_t glive = 0;
bool in_guarded(void* p) { auto a = reinterpret_cast<uintptr_t>(p); return a >= GUARDED && a < GUARDED + GUARDED_SZ; }
// what is no multiple of 8 has no member that needs to be aligned to more
size_t guarded_size(size_t sz) { return sz % 8 ? sz : (sz + 15) & ~size_t(15); }
void* guarded_alloc(size_t sz) {
	size_t n = guarded_size(sz);
	size_t len = (n + sizeof(Hdr) + PAGE - 1) & ~(PAGE - 1);
	if (glive > 12000 || gbump + len + PAGE > GUARDED + GUARDED_SZ) { return nullptr; }
	auto page = reinterpret_cast<char*>(gbump);
	if (mprotect(page, len, PROT_READ | PROT_WRITE)) { return nullptr; }
	gbump += len + PAGE;
	++glive;
	auto h = reinterpret_cast<Hdr*>(page);
	h->magic = 0x6A4D6A4D;
	h->size = sz;
	void* u = page + len - n;
	fillmem(u, sz);
	memcpy(static_cast<char*>(u) + sz, &CANARY, std::min(n - sz, sizeof(CANARY)));
	return u;
}
void guarded_free(void* p) {
	auto h = reinterpret_cast<Hdr*>((reinterpret_cast<uintptr_t>(p) - sizeof(Hdr)) & ~(PAGE - 1));
	if (h->magic != 0x6A4D6A4D) { corrupt("heap corruption or double free"); }
	size_t n = guarded_size(h->size);
	if (memcmp(static_cast<char*>(p) + h->size, &CANARY, std::min(n - h->size, sizeof(CANARY)))) { corrupt("heap corruption: written past the end of an allocation"); }
	size_t len = (n + sizeof(Hdr) + PAGE - 1) & ~(PAGE - 1);
	auto page = static_cast<char*>(p) + n - len;
	madvise(page, len, MADV_DONTNEED);
	mprotect(page, len, PROT_NONE);
	--glive;
}
bool in_arena(void* p) { auto a = reinterpret_cast<uintptr_t>(p); return a >= ARENA && a < ARENA + ARENA_SZ; }
void arena_free(void* p) {
	auto h = static_cast<Hdr*>(p) - 1;
	if (h->magic != 0xC63A110C) { corrupt("heap corruption or double free"); }
	if (memcmp(static_cast<char*>(p) + h->size, &CANARY, sizeof(CANARY))) { corrupt("heap corruption: written past the end of an allocation"); }
	h->magic = 0xF4EEF4EE;
	size_t real;
	cls_of(h->size + sizeof(CANARY), real);
	h->freefill = fillmem(p, real);
	push(freel[h->cls], h);
}
} // namespace
bool in_sim_heap(uintptr_t a) { return in_arena(reinterpret_cast<void*>(a)) || in_guarded(reinterpret_cast<void*>(a)); }

void alloc_begin(uint32_t m, uint64_t seed, uint32_t f, uint32_t pol, int64_t oat, int64_t ocount) {
	rng = Rng(seed ^ 0xA110C);
	fill = f;
	policy = pol;
	oom_at = oat;
	oom_count = ocount;
	if (m) {
		void* p = mmap(reinterpret_cast<void*>(ARENA), ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
		if (p != reinterpret_cast<void*>(ARENA)) { fprintf(stderr, "simulator: arena mmap failed\n"); __real__exit(97); }
		bump = ARENA + (policy == 2 ? rng.below(1 << 16) * 16 : 0);
	}
	// malloc'ed memory (ICU, sqlite, stdio): content pattern too
	mallopt(M_PERTURB, f == 256 ? static_cast<int>(rng.next() & 0xff) : static_cast<int>(f));
	if (m && policy == 3) {
		void* p = mmap(reinterpret_cast<void*>(GUARDED), GUARDED_SZ, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
		if (p != reinterpret_cast<void*>(GUARDED)) { fprintf(stderr, "simulator: arena mmap failed\n"); __real__exit(97); }
		gbump = GUARDED + PAGE;
	}
	mode = m;
}
} // namespace sim

static void* sim_new(size_t sz, bool nothrow) {
	using namespace sim;
	if (g_alloc_bypass || !g_in_sim) { return malloc(sz ? sz : 1); }
	auto n_alloc = static_cast<int64_t>(++g_shm->n_alloc);
	if (oom_at >= 0 && n_alloc > oom_at && n_alloc <= oom_at + oom_count) {
		g_shm->oom_fired = 1;
		in::count("fault.oom");
		oom_trace();
		if (nothrow) { return nullptr; }
		throw std::bad_alloc();
	}
	if (sz > (1ull << 31)) {
		// a machine has finite memory
		in::count("fault.huge_alloc_refused");
		if (nothrow) { return nullptr; }
		throw std::bad_alloc();
	}
	void* p = nullptr;
	if (mode && policy == 3 && (sz >= 512 || rng.below(8) == 0)) { p = guarded_alloc(sz); }
	if (p) { return p; }
	p = mode ? arena_alloc(sz) : malloc(sz ? sz : 1);
	if (!p && !nothrow) { throw std::bad_alloc(); }
	return p;
}
static void sim_delete(void* p) {
	if (!p) { return; }
	if (sim::in_arena(p)) { sim::arena_free(p); return; }
	if (sim::in_guarded(p)) { sim::guarded_free(p); return; }
	free(p);
}
void* operator new(size_t n) { return sim_new(n, false); }
void* operator new[](size_t n) { return sim_new(n, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim_new(n, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim_new(n, true); }
void operator delete(void* p) noexcept { sim_delete(p); }
void operator delete[](void* p) noexcept { sim_delete(p); }
void operator delete(void* p, size_t) noexcept { sim_delete(p); }
void operator delete[](void* p, size_t) noexcept { sim_delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim_delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim_delete(p); }
