/* C30: the assembly routines' calling convention and operand placement */
#include "guard.hpp"
#include "opgen.hpp"
#include <cstddef>
#include <memory>
#include <sys/mman.h>
using namespace gen;
using namespace ops;
using namespace opgen;
using guard::Buf;
using ref::P;
using ref::N;

extern "C" {
struct AbiCtx {
	const void *fn;          // 0
	uint64_t args[6];        // 8
	uint64_t saved[6];       // 56: rbx rbp r12 r13 r14 r15
	uint64_t rsp;            // 104
	uint64_t junk;           // 112
	uint64_t flags;          // 120
	uint64_t rax;            // 128
	uint64_t savedOut[6];    // 136
	uint64_t rspOut;         // 184
	uint64_t flagsOut;       // 192
	uint32_t mxcsr, pad0;    // 200
	uint8_t fenv[32];        // 208
	uint8_t xmm[16];         // 240
};
static_assert(offsetof(AbiCtx, rspOut) == 184 && offsetof(AbiCtx, fenv) == 208 && offsetof(AbiCtx, xmm) == 240, "");
void abi_call(AbiCtx *);
#define WEAK(name) __attribute__((weak)) void name()
WEAK(asm_Uint256_add); WEAK(asm_Uint256_subtract); WEAK(asm_Uint256_shiftLeft1); WEAK(asm_Uint256_shiftRight1);
WEAK(asm_Uint256_replace); WEAK(asm_Uint256_swap); WEAK(asm_Uint256_equalTo); WEAK(asm_Uint256_lessThan);
WEAK(asm_FieldInt_multiply256x256eq512); WEAK(asm_FieldInt_multiplyBarrettStep0); WEAK(asm_FieldInt_multiplyBarrettStep1); WEAK(asm_FieldInt_multiplyBarrettStep2);
}

namespace {

const size_t STACK = 1 << 18, PAGE = 4096;
uint8_t *stackLow;
uint8_t pat(size_t i) { return static_cast<uint8_t>(i * 29 + 0x71); }

// Calls fn with arbitrary contents in every register that has no defined contents, and checks what a caller relies on
uint64_t callAbi(Src &s, const char *what, const void *fn, const uint64_t *args, int n, bool library) {
	if (!stackLow) {
		void *m = mmap(nullptr, STACK + 2 * PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		if (m == MAP_FAILED || mprotect(static_cast<uint8_t *>(m) + PAGE, STACK, PROT_READ | PROT_WRITE) != 0) { perror("mmap"); abort(); }
		stackLow = static_cast<uint8_t *>(m) + PAGE;
	}
	AbiCtx c;
	memset(&c, 0, sizeof c);
	c.fn = fn;
	uint64_t junk = s.u64();
	for (int i = 0; i < 6; i++) c.args[i] = i < n ? args[i] : junk * (2 * static_cast<uint64_t>(i) + 3);
	for (int i = 0; i < 6; i++) c.saved[i] = (junk ^ 0x123456789ABCDEFu) * (2 * static_cast<uint64_t>(i) + 5);
	c.junk = ~junk;
	c.flags = 0x202 | (junk & 0x8D5);  // Any of CF PF AF ZF SF OF
	for (int i = 0; i < 16; i++) c.xmm[i] = static_cast<uint8_t>(junk >> (i % 8 * 8) ^ static_cast<uint64_t>(i));
	// The caller's frame: up to 256 bytes above the return address, then an inaccessible page
	size_t frame = 16 * s.below(17);
	uint8_t *top = stackLow + STACK, *sp = top - frame;
	for (size_t i = 0; i < frame; i++) sp[i] = pat(i);
	memset(sp - 2048, static_cast<int>(junk & 0xFF), 2048);
	c.rsp = reinterpret_cast<uint64_t>(sp);
	uint32_t mx = 0x1F80;
	__asm__ volatile("ldmxcsr %0" : : "m"(mx));
	abi_call(&c);
	static const char *const R[] = {"rbx", "rbp", "r12", "r13", "r14", "r15"};
	for (int i = 0; i < 6; i++) REQUIRE(c.saved[i] == c.savedOut[i], "%s does not preserve %s", what, R[i]);
	REQUIRE(c.rsp == c.rspOut, "%s does not preserve the stack pointer (off by %lld)", what, static_cast<long long>(c.rspOut - c.rsp));
	REQUIRE((c.flagsOut & 0x400) == 0, "%s returns with the direction flag set", what);
	REQUIRE((c.mxcsr & 0xFFC0) == 0x1F80, "%s changes the floating point control bits", what);
	uint16_t fcw, ftw;
	memcpy(&fcw, c.fenv, 2);
	memcpy(&ftw, c.fenv + 8, 2);
	REQUIRE(ftw == 0xFFFF, "%s returns with the x87 registers in use", what);
	(void)fcw;
	for (size_t i = 0; i < frame; i++) REQUIRE(sp[i] == pat(i), "%s changes its caller's stack frame", what);
	(void)library;
	return c.rax;
}

struct Operand {
	std::unique_ptr<Buf> b;
	Bytes before;
	uint32_t *w() { return reinterpret_cast<uint32_t *>(b->p); }
	uint64_t addr() { return reinterpret_cast<uint64_t>(b->p); }
};
Bytes words(const Num &x, size_t n) {
	Bytes r(4 * n);
	Num t = x;
	for (size_t i = 0; i < r.size(); i++) { r[i] = static_cast<uint8_t>(t & 0xFF); t >>= 8; }
	return r;
}
Num value(const uint8_t *p, size_t n) {
	Num r = 0;
	for (size_t i = 4 * n; i-- > 0; ) r = (r << 8) | p[i];
	return r;
}
Operand operand(Src &s, const Num &x, size_t n) {
	Operand o;
	o.before = words(x, n);
	o.b.reset(new Buf(s, o.before.data(), o.before.size(), 4));
	s.label(o.addr() % 16 ? o.addr() % 8 ? "operand at an odd multiple of 4" : "operand at an odd multiple of 8" : "operand at a multiple of 16");
	return o;
}
void unchanged(Operand &o, const char *what, const char *which) {
	o.b->check(what);
	REQUIRE(memcmp(o.b->p, o.before.data(), o.before.size()) == 0, "%s modified its operand %s", what, which);
}
void is(Operand &o, const char *what, const Num &exp, size_t n) {
	o.b->check(what);
	Num got = value(o.b->p, n);
	REQUIRE(got == exp, "%s gave %s, expected %s", what, str(got).c_str(), str(exp).c_str());
}
uint64_t upper(Src &s, uint64_t low32) {  // A 32-bit argument: the upper half of the register has no defined contents
	uint64_t u = s.weighted({1, 1, 2}) == 0 ? 0 : s.flag() ? UINT64_C(0xFFFFFFFF00000000) : s.u64() & UINT64_C(0xFFFFFFFF00000000);
	if (u) s.label("garbage in the upper half of enable");
	return low32 | u;
}
Num wide(Src &s, size_t words32) {  // Any number of that many words
	Num r = 0;
	for (size_t i = 0; i < words32; i += 8) r |= u256(s) << static_cast<unsigned>(32 * i);
	if (s.flag()) r = u256(s) * u256(s);
	if (s.chance(1, 6)) r = (Num(1) << static_cast<unsigned>(32 * words32)) - 1 - s.below(3);
	return r & ((Num(1) << static_cast<unsigned>(32 * words32)) - 1);
}

}

PROPERTY(abi_routines) {
	const Num T = ref::TWO256();
	int which = static_cast<int>(s.below(12));
	static const struct { const char *name; void (*fn)(); } F[] = {
		{"asm_Uint256_add", asm_Uint256_add}, {"asm_Uint256_subtract", asm_Uint256_subtract}, {"asm_Uint256_shiftLeft1", asm_Uint256_shiftLeft1},
		{"asm_Uint256_shiftRight1", asm_Uint256_shiftRight1}, {"asm_Uint256_replace", asm_Uint256_replace}, {"asm_Uint256_swap", asm_Uint256_swap},
		{"asm_Uint256_equalTo", asm_Uint256_equalTo}, {"asm_Uint256_lessThan", asm_Uint256_lessThan},
		{"asm_FieldInt_multiply256x256eq512", asm_FieldInt_multiply256x256eq512}, {"asm_FieldInt_multiplyBarrettStep0", asm_FieldInt_multiplyBarrettStep0},
		{"asm_FieldInt_multiplyBarrettStep1", asm_FieldInt_multiplyBarrettStep1}, {"asm_FieldInt_multiplyBarrettStep2", asm_FieldInt_multiplyBarrettStep2},
	};
	const char *name = F[which].name;
	const void *fn = reinterpret_cast<const void *>(F[which].fn);
	if (!fn) { s.label("routine not present"); return; }
	s.label(name);
	s.nontrivial();
	auto go = [&](std::initializer_list<uint64_t> a) { return callAbi(s, name, fn, a.begin(), static_cast<int>(a.size()), false); };
	if (which < 8) {
		Num a = u256(s), b = related(s, a);
		uint32_t en = s.flag();
		s.note("%s: a=%s b=%s enable=%u", name, str(a).c_str(), str(b).c_str(), en);
		Operand x = operand(s, a, 8), y = operand(s, b, 8);
		bool two = which != 2 && which != 3, alias = (which >= 4 && which <= 7) && s.chance(1, 10);
		uint64_t e = upper(s, en), yp = y.addr();
		if (alias) { b = a; yp = x.addr(); s.label("both operands are one object"); }
		switch (which) {
			case 0: {
				uint32_t r = static_cast<uint32_t>(go({x.addr(), yp, e}));
				Num sum = a + (en ? b : Num(0));
				is(x, name, sum % T, 8);
				REQUIRE(r == (sum >= T), "%s returned %u", name, r);
				break;
			}
			case 1: {
				uint32_t r = static_cast<uint32_t>(go({x.addr(), yp, e}));
				Num m = en ? b : Num(0);
				is(x, name, (a + T - m) % T, 8);
				REQUIRE(r == (a < m), "%s returned %u", name, r);
				break;
			}
			case 2: {
				uint32_t r = static_cast<uint32_t>(go({x.addr()}));
				is(x, name, a * 2 % T, 8);
				REQUIRE(r == (a * 2 >= T), "%s returned %u", name, r);
				break;
			}
			case 3: go({x.addr(), e}); is(x, name, en ? Num(a >> 1) : a, 8); break;
			case 4: go({x.addr(), yp, e}); is(x, name, en ? b : a, 8); break;
			case 5: go({x.addr(), yp, e}); is(x, name, en ? b : a, 8); if (!alias) is(y, name, en ? a : b, 8); break;
			case 6: { uint8_t r = static_cast<uint8_t>(go({x.addr(), yp})); REQUIRE(r == (a == b), "%s returned %u", name, r); unchanged(x, name, "left"); break; }
			default: { uint8_t r = static_cast<uint8_t>(go({x.addr(), yp})); REQUIRE(r == (a < b), "%s returned %u", name, r); unchanged(x, name, "left"); }
		}
		if (!alias && (which != 5 || !two)) unchanged(y, name, "right");
		return;
	}
	if (which == 8) {
		Num a = u256(s), b = s.flag() ? u256(s) : related(s, a);
		if (s.chance(1, 4)) { a %= P(); b = field(s); boundaryPair(s, a, b); }
		s.note("%s: %s * %s", name, str(a).c_str(), str(b).c_str());
		Operand z = operand(s, wide(s, 16), 16), x = operand(s, a, 8), y = operand(s, b, 8);
		bool alias = s.chance(1, 8);
		go({z.addr(), x.addr(), alias ? x.addr() : y.addr()});
		is(z, name, a * (alias ? a : b), 16);
		unchanged(x, name, "x");
		unchanged(y, name, "y");
	} else if (which == 9) {
		Num a = wide(s, 16);
		s.note("%s: %s", name, str(a).c_str());
		Operand z = operand(s, wide(s, 24), 24), x = operand(s, a, 16);
		go({z.addr(), x.addr()});
		Num m = T + (Num(1) << 32) + 0x3D1, lim = Num(1) << 768;
		is(z, name, a * m % lim, 24);
		unchanged(x, name, "src");
	} else if (which == 10) {
		Num a = u256(s);
		s.note("%s: %s", name, str(a).c_str());
		Operand z = operand(s, wide(s, 16), 16), x = operand(s, a, 8);
		go({z.addr(), x.addr()});
		is(z, name, a * P(), 16);
		unchanged(x, name, "src");
	} else {
		Num a = wide(s, 16), b = s.flag() ? wide(s, 16) : Num((a + s.below(5)) & ((Num(1) << 512) - 1));
		s.note("%s: %s - %s", name, str(a).c_str(), str(b).c_str());
		Operand z = operand(s, wide(s, 9), 9), x = operand(s, a, 16), y = operand(s, b, 16);
		go({z.addr(), x.addr(), y.addr()});
		Num lim = Num(1) << 288;
		is(z, name, (a % lim + lim - b % lim) % lim, 9);
		unchanged(x, name, "x");
		unchanged(y, name, "y");
	}
}

// The same through the public operations: whatever they call must leave their caller's registers alone
PROPERTY(abi_ops) {
	Call c = call(s, anyOp(s, 4));
	if (def(c.op).slot[0].kind != KU && def(c.op).slot[0].kind != KF && def(c.op).slot[0].kind != KP) c = call(s, static_cast<int>(s.flag() ? s.range(U_ADD, U_GE) : s.range(F_ADD, P_COMPRESS)));
	s.note("%s", c.text().c_str());
	s.label(def(c.op).name);
	s.nontrivial();
	const Def &d = def(c.op);
	std::string plain = runPlain(c);
	std::unique_ptr<Buf> b[5];
	void *slot[5] = {};
	size_t len[5] = {};
	for (int i = 0; i < 5 && d.slot[i].kind != NONE; i++) {
		b[i].reset(new Buf(s, c.data[i].data(), c.data[i].size(), kindAlign(d.slot[i].kind)));
		slot[i] = b[i]->p;
		len[i] = b[i]->n;
		if (c.same[i]) for (int j = 0; j < i; j++) if (d.slot[j].kind == d.slot[i].kind && d.slot[j].mode == IN) { slot[i] = slot[j]; break; }
	}
	uint64_t a[] = {upper(s, static_cast<uint64_t>(c.op)), reinterpret_cast<uint64_t>(slot), reinterpret_cast<uint64_t>(len), c.arg};
	uint64_t ret = callAbi(s, d.name, reinterpret_cast<const void *>(&ops_run), a, 4, true);
	for (int i = 0; i < 5 && d.slot[i].kind != NONE; i++) {
		REQUIRE(b[i]->intact(), "%s wrote outside operand %d", d.name, i);
		if (d.slot[i].mode == IN && len[i] && slot[i] == b[i]->p) REQUIRE(memcmp(slot[i], c.data[i].data(), len[i]) == 0, "%s modified operand %d, which is an input", d.name, i);
	}
	std::string got = outcome(c, ret, reinterpret_cast<const uint8_t *const *>(slot));
	REQUIRE(got == plain, "%s gave %s with operands elsewhere, but %s in ordinary memory", d.name, got.c_str(), plain.c_str());
}
