/* C34: with assertions enabled, calls that break a checked precondition are stopped, and no others */
#include "gen.hpp"
#include "guard.hpp"
#include "Base58Check.hpp"
#include "ExtendedPrivateKey.hpp"
#include "Keccak256.hpp"
#include "Ripemd160.hpp"
#include "Sha256.hpp"
#include "Sha512.hpp"
#include <csetjmp>
#include <csignal>
#include <cstdlib>
using namespace gen;
using guard::Buf;
using ref::P;
using ref::N;

static sigjmp_buf jump;
static volatile sig_atomic_t armed;

extern "C" {
[[noreturn]] void __real___assert_fail(const char *, const char *, unsigned, const char *) noexcept;
[[noreturn]] void __wrap___assert_fail(const char *e, const char *f, unsigned l, const char *fn) noexcept;
void __wrap___assert_fail(const char *e, const char *f, unsigned l, const char *fn) noexcept {
	if (armed) { armed = 0; siglongjmp(jump, 1); }
	__real___assert_fail(e, f, l, fn);
}
}
static void onAbort(int) { if (armed) { armed = 0; siglongjmp(jump, 1); } }  // Stopped in another way than with the assert macro

// Whether the call ends in a failed assertion
template <typename F> static bool stops(F f) {
	struct sigaction a, old;
	memset(&a, 0, sizeof a);
	a.sa_handler = onAbort;
	sigaction(SIGABRT, &a, &old);
	volatile bool r = true;
	if (sigsetjmp(jump, 1) == 0) {
		armed = 1;
		f();
		armed = 0;
		r = false;
	}
	sigaction(SIGABRT, &old, nullptr);
	return r;
}

// Text that is, or nearly is, 64 hexadecimal digits
static std::string digits(Src &s, const Num &x, bool bad) {
	std::string t = ref::hexNum(x);
	t = std::string(t.size() < 64 ? 64 - t.size() : 0, '0') + t;
	if (s.flag()) for (char &c : t) if (c >= 'a' && c <= 'f') c = static_cast<char>(c - 32);
	if (!bad) return t;
	if (s.flag()) {
		static const char NEAR[] = "/:@G`g \x7f\xb0\x80\xffxX-+.";
		for (size_t k = s.range(1, 2); k--; ) {
			char c = s.flag() ? NEAR[s.below(sizeof NEAR - 1)] : static_cast<char>(1 + s.below(255));
			if ((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')) c = 'g';
			t[s.below(64)] = c;
		}
		return t;
	}
	size_t n;
	switch (s.below(4)) {
		case 0: n = 63; break;
		case 1: n = 65; break;
		case 2: n = 64 * s.below(6); break;
		default: n = s.below(200);
	}
	if (n == 64) n = 0;
	while (t.size() < n) t += t[t.size() - 64];
	t.resize(n);
	return t;
}

static uint32_t badEnable(Src &s) {
	switch (s.below(4)) {
		case 0: return 2 + static_cast<uint32_t>(s.below(3));
		case 1: return UINT32_C(1) << s.range(1, 31);
		case 2: return UINT32_C(0xFFFFFFFF) - static_cast<uint32_t>(s.below(3));
		default: { uint32_t r = s.u32(); return r < 2 ? r + 2 : r; }
	}
}

static Num oddModulus(Src &s) {
	switch (s.below(4)) {
		case 0: return P();
		case 1: return N();
		case 2: return Num(3 + 2 * s.below(200));
		default: { Num m = u256(s) | Num(1); return m == 1 ? Num(3) : m; }
	}
}

#define STOP(what, bad, ...) do { \
	s.label(what); \
	bool st_ = stops([&] { __VA_ARGS__; }); \
	REQUIRE(!(bad) || st_, "%s: the call was not stopped by an assertion", what); \
	REQUIRE((bad) || !st_, "%s: an assertion stopped a call that meets every precondition", what); \
} while (0)

PROPERTY(assert_calls) {
	bool bad = !s.chance(1, 4);
	if (bad) s.nontrivial();
	size_t op = s.below(40);
	uint8_t out[128];
	char text[128];
	Num a = u256(s), b = u256(s);
	Uint256 x = U(a), y = U(b);
	uint32_t en = bad ? badEnable(s) : static_cast<uint32_t>(s.below(2));
	switch (op) {
		case 0: case 1: case 2: case 3: {
			bool null = bad && s.chance(1, 8);
			Num v = op == 1 ? field(s) : a;
			bool big = op == 1 && bad && s.chance(1, 4);
			if (big) v = P() + s.below(1000);
			std::string t = digits(s, v, bad && !big);
			Pt q = point(s, false);
			std::string t2 = digits(s, s.flag() ? q.x : field(s), false);
			bool second = s.flag();
			std::string &tx = op == 3 && !second ? t2 : t;
			if (op == 3 && !bad) t = digits(s, field(s), false);
			Buf m(s, t.c_str(), t.size() + 1), m2(s, t2.c_str(), t2.size() + 1);
			const char *c = null ? nullptr : m.str();
			(void)tx;
			s.note("text %s\"%s\"", null ? "null, not " : "", t.c_str());
			if (op == 0) STOP("Uint256(text)", bad, Uint256 r(c); (void)r);
			else if (op == 1) STOP("FieldInt(text)", bad, FieldInt r(c); (void)r);
			else if (op == 2) STOP("Sha256Hash(text)", bad, Sha256Hash r(c); (void)r);
			else if (second) STOP("CurvePoint(text, text), first", bad, CurvePoint r(c, m2.str()); (void)r);
			else STOP("CurvePoint(text, text), second", bad, CurvePoint r(m2.str(), c); (void)r);
			return;
		}
		case 4: {
			const uint8_t *p = bad ? nullptr : out;
			memset(out, 7, sizeof out);
			STOP("Uint256(bytes)", bad, Uint256 r(p); (void)r);
			return;
		}
		case 5: case 6: {
			bool self = bad && s.flag();
			if (self) en = static_cast<uint32_t>(s.below(2));
			s.note("%s and %s, enable %u%s", str(a).c_str(), str(b).c_str(), en, self ? ", both the same object" : "");
			Uint256 &o = self ? x : y;
			if (op == 5) STOP("Uint256::add", bad, x.add(o, en));
			else STOP("Uint256::subtract", bad, x.subtract(o, en));
			return;
		}
		case 7: s.note("enable %u", en); STOP("Uint256::shiftRight1", bad, x.shiftRight1(en)); return;
		case 8: s.note("enable %u", en); STOP("Uint256::replace", bad, x.replace(y, en)); return;
		case 9: s.note("enable %u", en); STOP("Uint256::swap", bad, x.swap(y, en)); return;
		case 10: {
			FieldInt f = F(field(s)), g = F(field(s));
			s.note("enable %u", en);
			STOP("FieldInt::replace", bad, f.replace(g, en));
			return;
		}
		case 11: {
			CurvePoint f = proj(point(s, true), scale(s)), g = proj(point(s, true), scale(s));
			s.note("enable %u", en);
			STOP("CurvePoint::replace", bad, f.replace(g, en));
			return;
		}
		case 12: case 13: case 14: case 15: {
			Num m = oddModulus(s), v = below(s, m);
			bool self = false;
			if (!bad) {
				while (v != 0 && ref::gcd(v, m) != 1) v -= 1;
			} else switch (s.below(6)) {
				case 0: m &= ~Num(1); if (v >= m) v = 0; break;             // Even
				case 1: m = s.below(2); v = s.flag() ? Num(0) : below(s, m + 1); break;  // Not above one
				case 2: v = m; break;
				case 3: v = m + s.below(5); if (v >= ref::TWO256()) v = m; break;
				case 4: v = s.flag() ? u256(s) : ref::TWO256() - 1; if (v < m) { v = m; } break;
				default: {                                               // A common factor
					if (s.chance(1, 4)) { self = true; break; }
					Num f = Num(3 + 2 * s.below(s.flag() ? 50 : 1000000)), k = uniform(s) >> static_cast<unsigned>(s.range(30, 250));
					k |= 1;
					if (k == 1) k = 3;
					m = f * k;
					v = f * (1 + uniform(s) % (k - 1));
				}
			}
			s.note("value %s, modulus %s%s", str(v).c_str(), str(m).c_str(), self ? ", both the same object" : "");
			x = U(v);
			y = U(m);
			if (self) STOP("Uint256::reciprocal of the modulus itself", true, y.reciprocal(y));
			else STOP("Uint256::reciprocal", bad, x.reciprocal(y));
			return;
		}
		case 16: { uint8_t *p = bad ? nullptr : out; STOP("Uint256::getBigEndianBytes", bad, x.getBigEndianBytes(p)); return; }
		case 17: case 18: {
			size_t n = 32;
			bool null = false;
			if (bad) {
				null = s.chance(1, 4);
				if (!null) n = s.flag() ? s.below(100) : s.flag() ? (size_t(1) << s.range(6, 40)) + 32 : s.flag() ? 31 : 33;
				if (!null && n == 32) n = 0;
			}
			memset(out, 1, sizeof out);
			const uint8_t *p = null ? nullptr : out;
			s.note("length %zu%s", n, null ? ", null" : "");
			STOP("Sha256Hash(bytes)", bad, Sha256Hash r(p, n); (void)r);
			return;
		}
		case 19: case 20: case 21: {
			Num k = scalar(s);
			if (bad) switch (s.below(5)) {
				case 0: k = 0; break;
				case 1: k = N(); break;
				case 2: k = N() + 1 + s.below(1000); break;
				case 3: k = ref::TWO256() - 1 - s.below(1000); break;
				default: k = N() + uniform(s) % (ref::TWO256() - N());
			}
			s.note("private exponent %s", str(k).c_str());
			x = U(k);
			memset(out, 3, sizeof out);
			if (op == 21) STOP("ExtendedPrivateKey(...)", bad, ExtendedPrivateKey e(x, out, 1, 2, out); (void)e);
			else STOP("privateExponentToPublicPoint", bad, CurvePoint::privateExponentToPublicPoint(x));
			return;
		}
		case 22: { uint8_t *p = bad ? nullptr : out; CurvePoint g = proj(point(s, false), 1); STOP("CurvePoint::toCompressedPoint", bad, g.toCompressedPoint(p)); return; }
		default: break;
	}
	// Null pointers where there must be bytes or room: a length of zero excuses a message or key, nothing excuses an output
	Bytes m = bytes(s, s.below(200)), k = bytes(s, s.below(200));
	bool output = s.flag();  // Which one is wrong
	if (bad && !output && m.empty()) m.push_back(1);
	if (bad && !output && k.empty()) k.push_back(1);
	const uint8_t *pm = bad && !output ? nullptr : m.empty() && s.flag() ? nullptr : m.data();
	const uint8_t *pk = bad && output ? nullptr : k.empty() && s.flag() ? nullptr : k.data();
	uint8_t *po = bad && output ? nullptr : out;
	uint8_t *po1 = bad ? nullptr : out;
	char *pt = bad && output ? nullptr : text, *pt1 = bad ? nullptr : text;
	size_t ml = m.size(), kl = k.size();
	s.note("message %s (%zu), output %s", pm ? "given" : "null", ml, po ? "given" : "null");
	uint32_t st[8] = {1, 2, 3, 4, 5, 6, 7, 8};
	uint8_t block[64] = {9};
	uint8_t ver = s.u8();
	Num key = scalar(s);
	x = U(key);
	switch (op) {
		case 23: STOP("Ripemd160::getHash", bad, Ripemd160::getHash(pm, ml, po)); return;
		case 24: STOP("Keccak256::getHash", bad, Keccak256::getHash(pm, ml, po)); return;
		case 25: STOP("Sha512::getHash", bad, Sha512::getHash(pm, ml, po)); return;
		case 26: case 27: {
			if (bad && output) { if (m.empty()) m.push_back(1); ml = m.size(); pm = nullptr; }
			if (op == 26) STOP("Sha256::getHash", bad, Sha256::getHash(pm, ml));
			else STOP("Sha256::getDoubleHash", bad, Sha256::getDoubleHash(pm, ml));
			return;
		}
		case 28: case 29: {
			if (bad && output) { if (k.empty()) { k.push_back(1); } kl = k.size(); pk = nullptr; }
			// Exactly one of the two is wrong
			if (op == 28) STOP("Sha256::getHmac", bad, Sha256::getHmac(pk, kl, pm, ml));
			else STOP("Sha512::getHmac", bad, Sha512::getHmac(pk, kl, pm, ml, out));
			return;
		}
		case 30: STOP("Sha512::getHmac, output", bad, Sha512::getHmac(k.data(), kl, m.data(), ml, po1)); return;
		case 31: {
			if (bad && output) { if (m.empty()) m.push_back(1); ml = m.size(); pm = nullptr; }
			Bytes pre = bytes(s, s.below(130));
			Sha256 h;
			h.append(pre.data(), pre.size());
			STOP("Sha256::append", bad, h.append(pm, ml));
			return;
		}
		case 32: {
			Bytes pre = bytes(s, s.below(260));
			Sha512 h;
			h.append(pre.data(), pre.size());
			if (bad && !output) STOP("Sha512::append", bad, h.append(pm, ml));
			else STOP("Sha512::getHash (streaming)", bad, h.getHash(po1));
			return;
		}
		case 33: {
			uint32_t *ps = bad && output ? nullptr : st;
			const uint8_t *pb = bad && !output ? nullptr : block;
			STOP("Sha256::compress", bad, Sha256::compress(ps, pb));
			return;
		}
		case 34: {
			Bytes h = bytes(s, 20);
			const uint8_t *ph = bad && !output ? nullptr : h.data();
			STOP("pubkeyHashToBase58Check", bad, Base58Check::pubkeyHashToBase58Check(ph, ver, pt));
			return;
		}
		case 35: { bool c = s.flag(); STOP("privateKeyToBase58Check", bad, Base58Check::privateKeyToBase58Check(x, ver, c, pt1)); return; }
		case 36: { ExtendedPrivateKey e; STOP("extendedPrivateKeyToBase58Check", bad, Base58Check::extendedPrivateKeyToBase58Check(e, pt1)); return; }
		case 37: case 38: case 39: {
			Bytes h = bytes(s, op == 37 ? 21 : op == 38 ? 33 : 82);
			std::string t = ref::base58check(h);
			if (s.chance(1, 3)) t = s.flag() ? std::string() : t.substr(0, s.below(t.size()));
			const char *in = t.c_str();
			uint8_t v;
			bool cmp;
			uint8_t *pv = s.flag() ? &v : nullptr;
			bool *pc = s.flag() ? &cmp : nullptr;
			if (op == 37) STOP("pubkeyHashFromBase58Check", bad, Base58Check::pubkeyHashFromBase58Check(bad && !output ? nullptr : in, po, pv));
			else if (op == 38) STOP("privateKeyFromBase58Check", bad, Base58Check::privateKeyFromBase58Check(bad ? nullptr : in, y, pv, pc));
			else { ExtendedPrivateKey e; STOP("extendedPrivateKeyFromBase58Check", bad, Base58Check::extendedPrivateKeyFromBase58Check(bad ? nullptr : in, e)); }
			return;
		}
	}
}
