/* C27 memory, C28 purity: calls of every public operation */
#include "guard.hpp"
#include "opgen.hpp"
#include <atomic>
#include <memory>
#include <pthread.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstddef>
#include "CurvePoint.hpp"
#include "ExtendedPrivateKey.hpp"
#include "Base58Check.hpp"
using namespace gen;
using namespace ops;
using namespace opgen;
using guard::Buf;

static void callsCommon(Src &s, const Call &c) {
	s.note("%s", c.text().c_str());
	s.label(def(c.op).name);
}

/*
 * C27. Every operand in memory of exactly its size, at any address its type allows, next to inaccessible pages or
 * canaries; the results must be those of roomy memory, nothing but the outputs may change, and neither the previous
 * contents of the outputs and the stack nor those of unused memory may matter.
 */
PROPERTY(mem_ops) {
	Call c = call(s, anyOp(s, 10));
	callsCommon(s, c);
	const Def &d = def(c.op);
	dirtyStack(0);
	std::string plain = runPlain(c);
	std::unique_ptr<Buf> b[5];
	void *slot[5] = {};
	size_t len[5] = {};
	bool odd = false, nulls = false;
	for (int i = 0; i < 5 && d.slot[i].kind != NONE; i++) {
		b[i].reset(new Buf(s, c.data[i].data(), c.data[i].size(), kindAlign(d.slot[i].kind)));
		slot[i] = b[i]->p;
		len[i] = b[i]->n;
		if (len[i] == 0 && d.slot[i].kind == KVAR && s.flag()) { slot[i] = nullptr; nulls = true; }
		if (reinterpret_cast<uintptr_t>(slot[i]) % 16) odd = true;
		if (c.same[i]) for (int j = 0; j < i; j++) if (d.slot[j].kind == d.slot[i].kind && d.slot[j].mode == IN) { slot[i] = slot[j]; break; }
	}
	if (odd) s.label("an operand is not 16-byte aligned");
	if (nulls) s.label("a null pointer");
	s.nontrivial();
	uint8_t junk = s.flag() ? 0xFF : s.u8();
	dirtyStack(junk);
	uint64_t ret = ops_run(c.op, slot, len, c.arg);
	for (int i = 0; i < 5 && d.slot[i].kind != NONE; i++) {
		REQUIRE(b[i]->intact(), "%s wrote outside operand %d", d.name, i);
		if (d.slot[i].mode == IN && len[i] && slot[i] == b[i]->p) REQUIRE(memcmp(slot[i], c.data[i].data(), len[i]) == 0, "%s modified operand %d, which is an input", d.name, i);
	}
	std::string got = outcome(c, ret, reinterpret_cast<const uint8_t *const *>(slot));
	REQUIRE(got == plain, "%s depends on the placement of its operands or on uninitialized memory: %s, but in ordinary memory %s", d.name, got.c_str(), plain.c_str());
	dirtyStack(static_cast<uint8_t>(junk ^ 0x5A));
	std::string again = runPlain(c, ops_run, 0xA5);
	REQUIRE(again == plain, "%s depends on uninitialized memory: %s, then %s", d.name, plain.c_str(), again.c_str());
}

/* C28. A process that has never used the library forks a child for each request. */
namespace {
struct Zygote {
	int fd = -1;
	pid_t owner = 0;
	void start() {
		if (owner == getpid()) return;
		owner = getpid();
		int sv[2];
		if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv) != 0) { perror("socketpair"); abort(); }
		pid_t p = fork();
		if (p == 0) {
			close(sv[0]);
			serve(sv[1]);
			_exit(0);
		}
		close(sv[1]);
		fd = sv[0];
	}
	static bool readAll(int fd, void *p, size_t n) {
		for (char *q = static_cast<char *>(p); n > 0; ) { ssize_t k = read(fd, q, n); if (k <= 0) return false; q += k; n -= static_cast<size_t>(k); }
		return true;
	}
	static bool writeAll(int fd, const void *p, size_t n) {
		for (const char *q = static_cast<const char *>(p); n > 0; ) { ssize_t k = write(fd, q, n); if (k <= 0) return false; q += k; n -= static_cast<size_t>(k); }
		return true;
	}
	static void serve(int fd) {
		for (;;) {
			uint32_t head[8];
			if (!readAll(fd, head, sizeof head)) return;
			Call c;
			c.op = static_cast<int>(head[0]);
			c.arg = head[1] | static_cast<uint64_t>(head[2]) << 32;
			for (int i = 0; i < 5; i++) {
				c.same[i] = head[3 + i] >> 31;
				c.data[i].resize(head[3 + i] & 0x7FFFFFFF);
				if (!c.data[i].empty() && !readAll(fd, c.data[i].data(), c.data[i].size())) return;
			}
			int status;
			pid_t p = fork();
			if (p == 0) {
				std::string r;
				try { r = runPlain(c); } catch (pbt::Fail &f) { r = f.msg; }
				uint32_t n = static_cast<uint32_t>(r.size());
				writeAll(fd, &n, 4);
				writeAll(fd, r.data(), r.size());
				_exit(0);
			}
			if (p < 0 || waitpid(p, &status, 0) < 0 || status != 0) { uint32_t n = 0; writeAll(fd, &n, 4); }
		}
	}
	std::string ask(const Call &c) {
		uint32_t head[8] = {static_cast<uint32_t>(c.op), static_cast<uint32_t>(c.arg), static_cast<uint32_t>(c.arg >> 32)};
		for (int i = 0; i < 5; i++) head[3 + i] = static_cast<uint32_t>(c.data[i].size()) | static_cast<uint32_t>(c.same[i]) << 31;
		bool ok = writeAll(fd, head, sizeof head);
		for (int i = 0; i < 5 && ok; i++) if (!c.data[i].empty()) ok = writeAll(fd, c.data[i].data(), c.data[i].size());
		uint32_t n = 0;
		if (!ok || !readAll(fd, &n, 4)) { fprintf(stderr, "the fresh process is gone\n"); _exit(7); }
		std::string r(n, 0);
		if (n && !readAll(fd, &r[0], n)) _exit(7);
		return r;
	}
};
Zygote zygote;

std::string constants() {
	std::string r;
	for (const Uint256 *u : {&Uint256::ZERO, &Uint256::ONE, &CurvePoint::ORDER}) r += pbt::hex(u->value, 32);
	for (const FieldInt *f : {&CurvePoint::FI_ZERO, &CurvePoint::FI_ONE, &CurvePoint::A, &CurvePoint::B}) r += pbt::hex(f->value, 32);
	for (const CurvePoint *p : {&CurvePoint::G, &CurvePoint::ZERO}) r += str(*p);
	r += Base58Check::ALPHABET;
	return r;
}

// Calls that share values and differ in little, so that anything remembered from one call may mislead another
std::vector<Call> history(Src &s, size_t max, unsigned slow) {
	std::vector<Call> h;
	size_t n = s.range(2, max);
	int focus = s.chance(2, 3) ? anyOp(s, slow) : -1;
	for (size_t i = 0; i < n; i++) {
		switch (s.weighted({3, 4, 2})) {
			case 0: { Call c = call(s, anyOp(s, slow)); if (s.flag()) borrow(s, c, h); h.push_back(c); break; }
			case 1: if (!h.empty()) { h.push_back(variation(s, h[s.below(h.size())])); break; }  // Fall through
			default: { Call c = call(s, focus < 0 ? anyOp(s, slow) : focus); if (s.chance(1, 3)) borrow(s, c, h); h.push_back(c); }
		}
	}
	return h;
}
}

static void historyCase(Src &s, unsigned slow, size_t max) {
	zygote.start();
	std::vector<Call> h = history(s, max, slow);
	for (const Call &c : h) callsCommon(s, c);
	s.nontrivial();
	std::vector<std::string> res(h.size());
	std::string k0 = constants();
	size_t fresh = s.below(h.size());
	size_t steps = h.size() + s.below(2 * h.size() + 1);
	std::vector<size_t> order;
	for (size_t i = 0; i < steps; i++) {
		size_t k = i < h.size() ? i : s.below(h.size());
		order.push_back(k);
		std::string r = runPlain(h[k], ops_run, static_cast<uint8_t>(i * 37));
		if (i < h.size()) res[k] = r;
		else REQUIRE(r == res[k], "%s after %zu other calls: %s, but the first time: %s", h[k].text().c_str(), i, r.c_str(), res[k].c_str());
	}
	std::string f = zygote.ask(h[fresh]);
	REQUIRE(f == res[fresh], "%s in a fresh process: %s, but after other calls: %s", h[fresh].text().c_str(), f.c_str(), res[fresh].c_str());
	REQUIRE(constants() == k0, "a constant of the library changed");
}
PROPERTY(pure_history) { historyCase(s, 4, 10); }
PROPERTY(pure_history_slow) { historyCase(s, 60, 6); }

/* C28. Several threads at once, each on its own data. */
static void threadsCase(Src &s, size_t nthreads, size_t perThread, unsigned slow) {
	std::vector<std::vector<Call>> h(nthreads);
	std::vector<std::vector<std::string>> exp(nthreads);
	std::vector<Call> pool = history(s, 5, slow);
	for (size_t t = 0; t < nthreads; t++) {
		for (size_t i = 0; i < perThread; i++) {
			Call c = s.flag() ? pool[s.below(pool.size())] : s.flag() ? variation(s, pool[s.below(pool.size())]) : call(s, anyOp(s, slow));
			h[t].push_back(c);
			exp[t].push_back(runPlain(c));
			callsCommon(s, c);
		}
	}
	s.nontrivial();
	struct Arg { const std::vector<Call> *h; const std::vector<std::string> *e; std::string fail; std::atomic<int> *ready; int n; size_t rounds; };
	std::atomic<int> ready(0);
	std::vector<Arg> args(nthreads);
	std::vector<pthread_t> th(nthreads);
	size_t rounds = 2;
	for (size_t t = 0; t < nthreads; t++) {
		args[t].h = &h[t]; args[t].e = &exp[t]; args[t].ready = &ready; args[t].n = static_cast<int>(nthreads); args[t].rounds = rounds;
		int rc = pthread_create(&th[t], nullptr, [](void *p) -> void * {
			Arg &a = *static_cast<Arg *>(p);
			a.ready->fetch_add(1);
			while (a.ready->load() < a.n) sched_yield();
			for (size_t r = 0; r < a.rounds && a.fail.empty(); r++)
				for (size_t i = 0; i < a.h->size(); i++) {
					std::string got;
					try { got = runPlain((*a.h)[i]); } catch (pbt::Fail &f) { a.fail = f.msg; break; }
					if (got != (*a.e)[i]) { a.fail = (*a.h)[i].text() + " with other threads running: " + got + ", but alone: " + (*a.e)[i]; break; }
				}
			return nullptr;
		}, &args[t]);
		if (rc != 0) { fprintf(stderr, "cannot create a thread\n"); abort(); }
	}
	for (size_t t = 0; t < nthreads; t++) pthread_join(th[t], nullptr);
	for (size_t t = 0; t < nthreads; t++) REQUIRE(args[t].fail.empty(), "%s", args[t].fail.c_str());
}
PROPERTY(pure_threads) { threadsCase(s, s.range(2, 4), s.range(3, 12), 6); }
PROPERTY(pure_threads_slow) { threadsCase(s, s.range(2, 4), s.range(1, 3), 60); }

/*
 * C27. The library (and nothing else) is compiled with memory sanitizer: outputs and stack are marked as
 * uninitialized before the call; afterwards every defined output byte must have been computed from inputs only.
 */
extern "C" {
__attribute__((weak)) void __msan_poison(const volatile void *, size_t);
__attribute__((weak)) void __msan_unpoison(const volatile void *, size_t);
__attribute__((weak)) void __msan_unpoison_param(size_t);
__attribute__((weak)) intptr_t __msan_test_shadow(const volatile void *, size_t);
void ops_run_mem(int op, void *const *slot, const size_t *len, uint64_t arg, uint64_t *ret);
}
__attribute__((noinline)) static void unpoisonStack() {
	uint8_t *sp = static_cast<uint8_t *>(__builtin_frame_address(0));
	__msan_unpoison(sp - 60000, 64000);
}
PROPERTY(msan_ops) {
	if (!__msan_poison) { fprintf(stderr, "not built with memory sanitizer\n"); abort(); }
	unpoisonStack();
	Call c = call(s, anyOp(s, 10));
	callsCommon(s, c);
	s.nontrivial();
	const Def &d = def(c.op);
	alignas(64) static uint8_t room[5][8192];
	static void *slot[5];
	static size_t len[5];
	static uint64_t ret;
	for (int i = 0; i < 5; i++) {
		slot[i] = room[i];
		len[i] = c.data[i].size();
		__msan_unpoison(room[i], sizeof room[i]);
		memset(room[i], 0x55, len[i] + 64);
		if (len[i]) memcpy(room[i], c.data[i].data(), len[i]);
		if (c.same[i]) for (int j = 0; j < i; j++) if (d.slot[j].kind == d.slot[i].kind && d.slot[j].mode == IN) { slot[i] = slot[j]; break; }
		__msan_poison(room[i], sizeof room[i]);
	}
	for (int i = 0; i < 5 && d.slot[i].kind != NONE; i++)
		if (d.slot[i].mode == IN || d.slot[i].mode == INOUT) __msan_unpoison(room[i], len[i]);
	__msan_unpoison(slot, sizeof slot);
	__msan_unpoison(len, sizeof len);
	__msan_unpoison_param(8);
	ops_run_mem(c.op, slot, len, c.arg, &ret);
	unpoisonStack();
	intptr_t bad[5];
	for (int i = 0; i < 5; i++) {
		bad[i] = -1;
		if (d.slot[i].kind == NONE || (d.slot[i].mode != OUT && d.slot[i].mode != INOUT)) continue;
		size_t n = len[i];
		if (d.slot[i].kind == KT36 || d.slot[i].kind == KT53 || d.slot[i].kind == KT112) n = std::min(n, strnlen(reinterpret_cast<char *>(room[i]), n) + 1);
		if (d.slot[i].kind == KX) {  // Padding is not part of the value
			size_t a = offsetof(ExtendedPrivateKey, depth) + 1;
			bad[i] = __msan_test_shadow(room[i], a);
			if (bad[i] < 0) { bad[i] = __msan_test_shadow(room[i] + offsetof(ExtendedPrivateKey, index), n - offsetof(ExtendedPrivateKey, index)); if (bad[i] >= 0) bad[i] += static_cast<intptr_t>(offsetof(ExtendedPrivateKey, index)); }
		} else if (n) bad[i] = __msan_test_shadow(room[i], n);
	}
	intptr_t badRet = __msan_test_shadow(&ret, sizeof ret);
	for (int i = 0; i < 5; i++) __msan_unpoison(room[i], sizeof room[i]);
	__msan_unpoison(&ret, sizeof ret);
	REQUIRE(badRet < 0, "the result of %s depends on uninitialized memory", d.name);
	for (int i = 0; i < 5; i++) REQUIRE(bad[i] < 0, "byte %zd of operand %d of %s is computed from uninitialized memory, or not set at all", bad[i], i, d.name);
}
