#include "guard.hpp"
#include <cstdlib>
#include <sys/mman.h>

// Present in builds with address sanitizer
extern "C" {
__attribute__((weak)) void __asan_poison_memory_region(void const volatile *, size_t);
__attribute__((weak)) void __asan_unpoison_memory_region(void const volatile *, size_t);
}

namespace guard {

static const size_t PAGE = 4096, CAP = 1 << 17;
struct Area { uint8_t *base; bool used; };
static thread_local Area areas[16];

static uint8_t canary(const uint8_t *q) { return static_cast<uint8_t>(0xC3 ^ (reinterpret_cast<uintptr_t>(q) * 37)); }

Buf::Buf(pbt::Src &s, size_t len, size_t align) : n(len) {
	if (n > CAP) { fprintf(stderr, "guard buffer too large\n"); abort(); }
	slot = 0;
	while (slot < 16 && areas[slot].used) slot++;
	if (slot == 16) { fprintf(stderr, "too many guard buffers\n"); abort(); }
	Area &a = areas[slot];
	if (!a.base) {
		void *m = mmap(nullptr, CAP + 2 * PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (m == MAP_FAILED || mprotect(static_cast<uint8_t *>(m) + PAGE, CAP, PROT_READ | PROT_WRITE) != 0) { perror("mmap"); abort(); }
		a.base = static_cast<uint8_t *>(m) + PAGE;
	}
	a.used = true;
	bool atStart = s.chance(1, 4);
	size_t shift = align && s.chance(1, 3) ? align * s.below(64 / align) : 0;
	if (shift) {
		p = a.base + 1024 + (n % align ? align - n % align : 0) + shift;
		while (reinterpret_cast<uintptr_t>(p) % align) p++;
		lo = p - 96;
		hi = p + n + 96;
	} else if (atStart) {
		p = a.base;
		lo = p;
		hi = n + 96 <= CAP ? p + n + 96 : a.base + CAP;
	} else {
		p = a.base + CAP - n;
		hi = p + n;
		lo = n + 96 <= CAP ? p - 96 : a.base;
	}
	for (uint8_t *q = lo; q < p; q++) *q = canary(q);
	for (uint8_t *q = p + n; q < hi; q++) *q = canary(q);
	poison(true);
}
void Buf::poison(bool on) {
	void (*f)(void const volatile *, size_t) = on ? __asan_poison_memory_region : __asan_unpoison_memory_region;
	if (!f) return;
	if (lo < p) f(lo, static_cast<size_t>(p - lo));
	if (p + n < hi) f(p + n, static_cast<size_t>(hi - (p + n)));
}
Buf::~Buf() { poison(false); areas[slot].used = false; }
bool Buf::intact() const {
	for (uint8_t *q = lo; q < p; q++) if (*q != canary(q)) return false;
	for (uint8_t *q = p + n; q < hi; q++) if (*q != canary(q)) return false;
	return true;
}

}
