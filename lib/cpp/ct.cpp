#include "ct.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <csignal>
#include <ucontext.h>
#include <unistd.h>
#include <link.h>

namespace ct {

#ifdef CT_STEP
const bool stepping = true;
#else
const bool stepping = false;
#endif

#ifdef CT_COUNT
const bool counting = true;
#else
const bool counting = false;
#endif

static bool active = false, logging = false;
static uint64_t hash_, count_;
static std::vector<uint64_t> log_;
static const size_t LOGCAP = 24u << 20;

static inline void event(uint64_t x) {
	uint64_t h = (hash_ ^ x) * UINT64_C(0x9E3779B97F4A7C15);
	hash_ = h ^ (h >> 31);
	count_++;
	if (__builtin_expect(logging, 0) && log_.size() < LOGCAP) log_.push_back(x);
}

std::string where(uint64_t ev) {
	char b[400];
	if (counting) { snprintf(b, sizeof b, "a total of %lu", static_cast<unsigned long>(ev)); return b; }
	Dl_info d;
	void *p = reinterpret_cast<void *>(ev & ((UINT64_C(1) << 60) - 1));
	bool data = (ev >> 60) != 0;
	if (!data && dladdr(p, &d) && d.dli_sname)
		snprintf(b, sizeof b, "code at %s+%#lx", d.dli_sname, static_cast<unsigned long>(static_cast<char *>(p) - static_cast<char *>(d.dli_saddr)));
	else if (dladdr(p, &d) && d.dli_sname)
		snprintf(b, sizeof b, "access to %s+%#lx", d.dli_sname, static_cast<unsigned long>(static_cast<char *>(p) - static_cast<char *>(d.dli_saddr)));
	else
		snprintf(b, sizeof b, "%s %p", data ? "access to" : "code at", p);
	return b;
}
static const uint64_t DATA = UINT64_C(1) << 60;

#ifdef CT_STEP

// One entry per instruction with memory operands; registers are numbered as in GREGS, -1 for none
struct Op { int8_t base, index, scale, next; int64_t disp; };
static Op *ops = nullptr;
static int32_t *table = nullptr;  // By offset from the start of the text
static uint64_t lo = 0, len = 0, slide = 0;

static inline uint64_t reg(const greg_t *g, int r, uint64_t) { return r < 0 ? 0 : static_cast<uint64_t>(g[r]); }

static void handler(int, siginfo_t *, void *uc) {
	const greg_t *g = static_cast<ucontext_t *>(uc)->uc_mcontext.gregs;
	uint64_t ip = static_cast<uint64_t>(g[REG_RIP]);
	event(ip);
	uint64_t off = ip - slide - lo;
	if (off < len) {
		for (int32_t k = table[off]; k >= 0; k = ops[k].next ? k + 1 : -1) {
			const Op &o = ops[k];
			uint64_t a = reg(g, o.base, 0) + reg(g, o.index, 0) * static_cast<uint64_t>(o.scale) + static_cast<uint64_t>(o.disp);
			event((a & (DATA - 1)) | DATA);
		}
	}
}

static int phdr(struct dl_phdr_info *i, size_t, void *) {
	slide = i->dlpi_addr;
	return 1;  // The first one is the program itself
}

void init() {
	static bool done = false;
	if (done) return;
	done = true;
	dl_iterate_phdr(phdr, nullptr);
	char exe[2000];
	ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 8);
	if (n <= 0) abort();
	strcpy(exe + n, ".map");
	FILE *f = fopen(exe, "r");
	unsigned long nops = 0;
	if (!f || fscanf(f, "%lu %lu %lu", &lo, &len, &nops) != 3 || len > (64u << 20)) { fprintf(stderr, "no instruction table %s\n", exe); _exit(99); }
	table = static_cast<int32_t *>(malloc(len * sizeof *table));
	memset(table, 0xFF, len * sizeof *table);
	ops = static_cast<Op *>(calloc(nops + 1, sizeof *ops));
	unsigned long at, prev = ~0ul;
	int b, x, s;
	long d;
	for (unsigned long k = 0; k < nops; k++) {
		if (fscanf(f, "%lu %d %d %d %ld", &at, &b, &x, &s, &d) != 5 || at < lo || at - lo >= len) { fprintf(stderr, "bad instruction table\n"); _exit(99); }
		ops[k] = Op{static_cast<int8_t>(b), static_cast<int8_t>(x), static_cast<int8_t>(s), 0, d};
		if (at == prev) ops[k - 1].next = 1;
		else table[at - lo] = static_cast<int32_t>(k);
		prev = at;
	}
	fclose(f);
	static char alt[65536];
	stack_t st;
	memset(&st, 0, sizeof st);
	st.ss_sp = alt;
	st.ss_size = sizeof alt;
	sigaltstack(&st, nullptr);
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_sigaction = handler;
	sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
	sigaction(SIGTRAP, &sa, nullptr);
}

__attribute__((noinline)) void begin(bool log) {
	hash_ = count_ = 0;
	logging = log;
	log_.clear();
	if (log) log_.reserve(LOGCAP);
	active = true;
	asm volatile("pushfq\n\torq $0x100, (%%rsp)\n\tpopfq" ::: "memory", "cc");
}

__attribute__((noinline)) void end(Trace &t) {
	asm volatile("pushfq\n\tandq $-257, (%%rsp)\n\tpopfq" ::: "memory", "cc");
	active = false;
	t.hash = hash_;
	t.count = count_;
	t.log = log_;
	log_.clear();
}

#elif defined(CT_COUNT)

static long total;
static bool negative;
void init() {}
void begin(bool log) { hash_ = count_ = 0; logging = log; log_.clear(); total = 0; negative = false; active = true; }
void end(Trace &t) {
	active = false;
	event(static_cast<uint64_t>(total));  // How it adds up does not matter
	if (negative) event(~UINT64_C(0));
	t.hash = hash_;
	t.count = count_;
	t.log = log_;
	log_.clear();
}
static inline void call(const void *, const void *, size_t) {}

}
void countOps(long n);
void countOps(long n) {
	if (!ct::active) return;
	ct::total += n;
	if (n < 0) ct::negative = true;
}
namespace ct {

#else

void init() {}
__attribute__((noinline)) void begin(bool log) {
	hash_ = count_ = 0;
	logging = log;
	log_.clear();
	if (log) log_.reserve(LOGCAP);
	active = true;
}
__attribute__((noinline)) void end(Trace &t) {
	active = false;
	t.hash = hash_;
	t.count = count_;
	t.log = log_;
	log_.clear();
}

static inline void access(const void *p, uint64_t n, bool store) {
	if (active) event((reinterpret_cast<uint64_t>(p) & (DATA - 1)) ^ (n << 52) | DATA << (store ? 1 : 0));
}

}
extern "C" {
#define ACC(n) \
	void __asan_load##n##_noabort(const void *p) { ct::access(p, n, false); } \
	void __asan_store##n##_noabort(const void *p) { ct::access(p, n, true); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __asan_loadN_noabort(const void *p, size_t n) { ct::access(p, n & 63, false); }
void __asan_storeN_noabort(const void *p, size_t n) { ct::access(p, n & 63, true); }
void __asan_handle_no_return() {}
void __asan_before_dynamic_init(const char *) {}
void __asan_after_dynamic_init() {}
void __sanitizer_cov_trace_pc() { if (ct::active) ct::event(reinterpret_cast<uint64_t>(__builtin_return_address(0))); }
}
namespace ct {
#endif

#ifndef CT_COUNT
static inline void call(const void *a, const void *b, size_t n) {
	if (!active) return;
	event((reinterpret_cast<uint64_t>(a) & (DATA - 1)) | DATA);
	event((reinterpret_cast<uint64_t>(b) & (DATA - 1)) | DATA);
	event(DATA | n);
}
#endif

}

// The library's calls to these are redirected here by --wrap
extern "C" {
void *__real_memcpy(void *d, const void *s, size_t n);
void *__real_memmove(void *d, const void *s, size_t n);
void *__real_memset(void *d, int c, size_t n);
int __real_memcmp(const void *d, const void *s, size_t n);
void *__wrap_memcpy(void *d, const void *s, size_t n) { ct::call(d, s, n); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { ct::call(d, s, n); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { ct::call(d, nullptr, n); return __real_memset(d, c, n); }
int __wrap_memcmp(const void *a, const void *b, size_t n) {
	ct::call(a, b, n);
#if !defined(CT_STEP) && !defined(CT_COUNT)
	if (ct::active) {  // It stops at the first difference
		size_t i = 0;
		while (i < n && static_cast<const char *>(a)[i] == static_cast<const char *>(b)[i]) i++;
		ct::event(ct::DATA | i);
	}
#endif
	return __real_memcmp(a, b, n);
}
int __wrap_bcmp(const void *a, const void *b, size_t n) { return __wrap_memcmp(a, b, n); }
}
