#include "gen.hpp"
#include <algorithm>

namespace gen {

using ref::P;
using ref::N;
using ref::TWO256;

uint32_t word(Src &s) {
	static const uint32_t T[] = {0, 1, 0xFFFFFFFFu, 0x80000000u, 0x7FFFFFFFu, 0xFFFFFFFEu, 2, 977, 0xFFFFFC2Fu, 0xFFFFFC2Eu, 0x10000u, 0xFFFFu, 0x80000001u, 0xFFFF0000u};
	switch (s.weighted({6, 3, 1})) {
		case 0: return T[s.below(sizeof T / sizeof T[0])];
		case 1: return s.u32();
		default: return pbt::dict.empty() ? s.u32() : static_cast<uint32_t>(pbt::dict[s.below(pbt::dict.size())]);
	}
}
uint64_t qword(Src &s) {
	static const uint64_t T[] = {0, 1, ~UINT64_C(0), UINT64_C(1) << 63, (UINT64_C(1) << 63) - 1, ~UINT64_C(1), UINT64_C(1) << 32, 0xFFFFFFFFu, UINT64_C(0xFFFFFFFF00000000), UINT64_C(0x1000003D1)};
	switch (s.weighted({6, 3, 1})) {
		case 0: return T[s.below(sizeof T / sizeof T[0])];
		case 1: return s.u64();
		default: return pbt::dict.empty() ? s.u64() : pbt::dict[s.below(pbt::dict.size())];
	}
}
Num uniform(Src &s) {
	Num r = 0;
	for (int i = 0; i < 4; i++) r = (r << 64) | s.u64();
	return r;
}
static const std::vector<Num> &specials() {
	static const std::vector<Num> v = [] {
		std::vector<Num> r;
		r.push_back(0);
		r.push_back(P());
		r.push_back(N());
		r.push_back(TWO256() - P());
		r.push_back(TWO256() - N());
		r.push_back(P() / 2);
		r.push_back(N() / 2);
		r.push_back(P() - N());
		r.push_back(TWO256() - 1);
		r.push_back(Num(1) << 255);
		r.push_back(Num(1) << 128);
		r.push_back(Num(1) << 64);
		r.push_back(Num(1) << 32);
		r.push_back((Num(1) << 128) - 1);
		r.push_back(ref::base().x);
		r.push_back(ref::base().y);
		r.push_back(Num("0x5363AD4CC05C30E0A5261C028812645A122E22EA20816678DF02967C1B23BD72"));  // Cube root of 1 mod n
		r.push_back(Num("0x7AE96A2B657C07106E64479EAC3434E99CF0497512F58995C1396C28719501EE"));  // Cube root of 1 mod p
		r.push_back(P() - 7);
		r.push_back((TWO256() - 1) / 3);
		r.push_back((TWO256() - 1) / 5);
		r.push_back((TWO256() - P()) * (TWO256() - P()));
		r.push_back((N() + 1) / 3);
		r.push_back((P() + 1) / 4);
		return r;
	}();
	return v;
}
static Num wrap(const Num &x) { return x & (TWO256() - 1); }

bool recallNum(Src &s, Num &out) {
	if (!recall(s, out)) return false;
	vary(s, out);
	return true;
}
void vary(Src &s, Num &out) {
	switch (s.weighted({8, 1, 1, 1, 1, 1, 1, 1})) {
		case 0: break;
		case 1: out ^= Num(1) << static_cast<unsigned>(s.below(256)); break;
		case 2: out = wrap(out + 1 + s.below(3)); break;
		case 3: { unsigned k = 32 * static_cast<unsigned>(s.range(1, 7)); Num m = (Num(1) << k) - 1; out = (out & m) | (uniform(s) & ((TWO256() - 1) ^ m)); break; }  // Same low part
		case 4: { unsigned k = 32 * static_cast<unsigned>(s.range(1, 7)); Num m = (Num(1) << k) - 1; out = (uniform(s) & m) | (out & ((TWO256() - 1) ^ m)); break; }  // Same high part
		case 5: { unsigned i = 32 * static_cast<unsigned>(s.below(8)); out ^= Num(1 + s.below(UINT64_C(0xFFFFFFFF))) << i; break; }
		case 6: out = wrap(N() + TWO256() - out); break;
		default: {  // Two words exchanged: the same sum and the same exclusive or
			unsigned i = 32 * static_cast<unsigned>(s.below(8)), j = 32 * static_cast<unsigned>(s.below(8));
			Num a = (out >> i) & 0xFFFFFFFFu, b = (out >> j) & 0xFFFFFFFFu, d = a ^ b;
			if (i != j) out ^= (d << i) | (d << j);
		}
	}
}
bool recallText(Src &s, std::string &out) {
	if (!recall(s, out)) return false;
	if (!out.empty() && s.chance(1, 2)) {
		static const char A[] = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz0OIl";
		size_t i = s.below(out.size());
		switch (s.below(3)) {
			case 0: out[i] = A[s.below(sizeof A - 1)]; break;
			case 1: out.erase(i, 1); break;
			default: out.insert(i, 1, A[s.below(sizeof A - 1)]);
		}
	}
	return true;
}

static Num u256Fresh(Src &s);
Num u256(Src &s) {
	Num r;
	return recallNum(s, r) ? r : keep(s, u256Fresh(s));
}
static Num u256Fresh(Src &s) {
	switch (s.weighted({10, 10, 22, 10, 18, 14, 6, 14, 4, 5})) {
		case 0: return s.below(20);
		case 1: return TWO256() - 1 - s.below(20);
		case 2: {
			const Num &b = specials()[s.below(specials().size())];
			uint64_t d = s.below(41);  // 0, +1, -1, +2, ...
			return wrap(d % 2 ? Num(b + (d + 1) / 2) : Num(b + TWO256() - d / 2));
		}
		case 3: {
			Num b = Num(1) << static_cast<unsigned>(s.below(256));
			uint64_t d = s.below(7);
			return wrap(d % 2 ? Num(b + (d + 1) / 2) : Num(b + TWO256() - d / 2));
		}
		case 4: {
			Num r = 0;
			for (int i = 0; i < 8; i++) r = (r << 32) | word(s);
			return r;
		}
		case 5: return uniform(s);
		case 6: {  // Run of ones
			unsigned a = static_cast<unsigned>(s.below(257)), b = static_cast<unsigned>(s.below(257));
			if (a > b) std::swap(a, b);
			Num r = (Num(1) << b) - (Num(1) << a);
			return s.flag() ? Num(TWO256() - 1 - r) : r;
		}
		case 7: {
			Num r = 0;
			for (int i = 0; i < 4; i++) r = (r << 64) | qword(s);
			return r;
		}
		case 8: {  // Sparse bits
			Num r = 0;
			size_t k = s.range(1, 6);
			for (size_t i = 0; i < k; i++) r |= Num(1) << static_cast<unsigned>(s.below(256));
			return r;
		}
		default: {  // Few significant words
			unsigned len = static_cast<unsigned>(s.range(1, 8)) * 32;
			return uniform(s) & ((Num(1) << len) - 1);
		}
	}
}
Num related(Src &s, const Num &a) {
	switch (s.weighted({6, 2, 2, 1, 2, 2, 1, 1, 1})) {
		case 0: return u256(s);
		case 1: return a;
		case 2: { uint64_t d = s.below(9); return wrap(a + (d % 2 ? Num((d + 1) / 2) : Num(TWO256() - d / 2))); }
		case 3: return TWO256() - 1 - a;
		case 4: {  // One word replaced
			unsigned i = static_cast<unsigned>(s.below(8)) * 32;
			Num m = Num(0xFFFFFFFFu) << i;
			return (a & ((TWO256() - 1) ^ m)) | (Num(word(s)) << i);
		}
		case 5: return a ^ (Num(1) << static_cast<unsigned>(s.below(256)));
		case 6: return wrap(specials()[s.below(specials().size())] + TWO256() - a);
		case 7: return wrap(TWO256() - a);
		default: {  // Same top part, other low part
			unsigned k = static_cast<unsigned>(s.below(256));
			Num m = (Num(1) << k) - 1;
			return (a & ((TWO256() - 1) ^ m)) | (u256(s) & m);
		}
	}
}
Num below(Src &s, const Num &m) {
	Num r;
	if (recallNum(s, r)) return r % m;
	switch (s.weighted({3, 1, 6})) {
		case 0: return Num(s.below(20)) % m;
		case 1: return m - 1 - Num(s.below(20)) % m;
		default: return u256(s) % m;
	}
}
Num field(Src &s) { return below(s, P()); }
Num scalar(Src &s) {
	Num r;
	if (recallNum(s, r)) return r % N() == 0 ? Num(1) : Num(r % N());
	return keep(s, Num(1 + below(s, N() - 1)));
}

Num sparse(Src &s) {
	switch (s.weighted({4, 3, 2, 2})) {
		case 0: return Num(1) << static_cast<unsigned>(s.below(256));
		case 1: { Num r = Num(word(s)) << (32 * static_cast<unsigned>(s.below(8))); return r == 0 || r >= P() ? Num(1) : r; }
		case 2: return P() - (Num(1) << static_cast<unsigned>(s.below(255)));
		default: return 1 + s.below(1000);
	}
}
Num scale(Src &s) {
	switch (s.weighted({3, 4, 2, 1, 1})) {
		case 4: return sparse(s);
		case 0: return 1;
		case 1: return 1 + uniform(s) % (P() - 1);
		case 2: return 1 + below(s, P() - 1);
		default: return P() - 1;
	}
}

// Roots modulo p (which is 3 modulo 4 and 7 modulo 9)
static bool root(Num a, unsigned k, Num &r) {
	const Num &p = P();
	if (k % 2 == 0) {
		r = ref::powm(a, (p + 1) / 4, p);
		if (ref::mulm(r, r, p) != a) return false;
		if (k == 2) return true;
		if (k == 4 && ref::powm(r, (p - 1) / 2, p) != 1) r = p - r;
		return root(r, k / 2, r);
	}
	if (k == 3) {
		r = ref::powm(a, (p + 2) / 9, p);
		return ref::mulm(ref::mulm(r, r, p), r, p) == a;
	}
	r = a;
	return true;
}
Num solveScale(Src &s, const Terms &terms) {
	const std::pair<Num, unsigned> &t = terms[s.below(terms.size())];
	const Num &p = P();
	if (t.first % p == 0) return 1;
	Num ci = ref::invm(t.first % p, p), r;
	for (int i = 0; i < 5; i++) {
		Num want = s.flag() ? sparse(s) : 1 + below(s, p - 1);
		if (root(ref::mulm(want, ci, p), t.second, r)) return r;
	}
	return 1;
}
static Num mm(const Num &a, const Num &b) { return ref::mulm(a, b, P()); }
static Num sm(const Num &a, const Num &b) { return ref::subm(a, b, P()); }
Num scaleForTwice(Src &s, const Pt &a) {
	if (a.inf) return 1;
	Num x2 = mm(a.x, a.x), t = mm(3, x2), u = mm(2, a.y), xy = mm(a.x, a.y), v = mm(mm(2, u), xy), t2 = mm(t, t), w = sm(t2, mm(2, v));
	Num vw = sm(v, w), uy = mm(u, a.y), tvw = mm(t, vw), uy2 = mm(uy, uy);
	return solveScale(s, {{a.x, 1}, {a.y, 1}, {x2, 2}, {mm(2, x2), 2}, {t, 2}, {a.y, 2}, {u, 2}, {mm(2, u), 2}, {xy, 2}, {v, 4}, {mm(2, v), 4}, {t2, 4}, {w, 4}, {mm(u, w), 6}, {vw, 4}, {tvw, 6}, {uy, 3}, {uy2, 6}, {mm(2, uy2), 6},
		{sm(tvw, mm(2, uy2)), 6}, {mm(u, u), 4}, {mm(mm(u, u), u), 6}});
}
Num scaleForAdd(Src &s, const Pt &a, const Pt &b, const Num &sa) {
	if (a.inf || b.inf) return 1;
	Num u = sm(a.x, b.x), t = sm(a.y, b.y), u2 = mm(u, u), t2 = mm(t, t), sum = ref::addm(a.x, b.x, P()), w = sm(t2, mm(u2, sum)), u3 = mm(u2, u), xu2 = mm(a.x, u2), tw = mm(t, sm(xu2, w)), yu3 = mm(a.y, u3);
	Num both = solveScale(s, {{u, 1}, {t, 1}, {u, 1}, {t, 1}, {a.x, 1}, {a.y, 1}, {b.x, 1}, {b.y, 1}, {1, 1}, {sum, 1}, {u2, 2}, {t2, 2}, {t2, 3}, {mm(u2, sum), 3}, {w, 3}, {mm(u, w), 4}, {u3, 3}, {xu2, 3}, {sm(xu2, w), 3}, {tw, 4}, {yu3, 4},
		{sm(tw, yu3), 4}, {u3, 4}});
	return mm(both, ref::invm(sa, P()));
}

static Bytes bytesFresh(Src &s, size_t n);
Bytes bytes(Src &s, size_t n) {
	Bytes r;
	if (n == 0 || !recall(s, r)) return keep(s, bytesFresh(s, n));
	r.resize(n);
	switch (s.weighted({4, 2, 1, 1})) {
		case 0: break;
		case 1: { size_t i = s.below(n); r[i] = static_cast<uint8_t>(r[i] ^ (1 + s.below(255))); break; }
		case 2: { size_t i = s.below(n); for (size_t j = i; j < n; j++) r[j] = s.u8(); break; }  // Same start
		default: { size_t i = s.below(n); for (size_t j = 0; j < i; j++) r[j] = s.u8(); break; }  // Same end
	}
	return r;
}
static Bytes bytesFresh(Src &s, size_t n) {
	Bytes r(n);
	if (n == 0) return r;
	switch (s.weighted({2, 1, 1, 5, n <= 80 ? 3u : 0u, 1, 1})) {
		case 0: break;
		case 1: for (uint8_t &b : r) b = 0xFF; break;
		case 2: { uint8_t k = s.u8(); for (size_t i = 0; i < n; i++) r[i] = static_cast<uint8_t>(i + k); break; }
		case 3: {  // Pseudorandom fill from one choice
			uint64_t x = s.u64();
			for (size_t i = 0; i < n; i++) {
				x += UINT64_C(0x9E3779B97F4A7C15);
				uint64_t z = x;
				z = (z ^ (z >> 30)) * UINT64_C(0xBF58476D1CE4E5B9);
				r[i] = static_cast<uint8_t>(z >> 40);
			}
			break;
		}
		case 4: for (uint8_t &b : r) b = s.u8(); break;
		case 5: { uint8_t k = s.u8(); for (uint8_t &b : r) b = k; break; }
		default: {  // Zeros with a few set bytes
			size_t k = s.range(1, 4);
			for (size_t i = 0; i < k; i++) r[s.below(n)] = s.u8();
		}
	}
	return r;
}
namespace { struct Len { size_t n; }; }
static size_t msgLenFresh(Src &s, size_t block, size_t cap);
size_t msgLen(Src &s, size_t block, size_t cap) {
	Len l;
	if (recall(s, l, 1, 2)) return std::min(cap, l.n);
	return keep(s, Len{msgLenFresh(s, block, cap)}).n;
}
static size_t msgLenFresh(Src &s, size_t block, size_t cap) {
	size_t r;
	switch (s.weighted({5, 6, 3, 2})) {
		case 0: r = s.below(2 * block + 20); break;
		case 1: {  // Near a multiple of the block, or the padding limit
			size_t k = s.below(9);
			size_t b = k * block;
			size_t off = s.below(24);
			r = b + block >= off ? b + block - off : 0;
			if (s.flag()) r = b + s.below(6);
			break;
		}
		case 2: r = s.below(1500); break;
		default:
			if (!pbt::dict.empty() && s.flag()) r = static_cast<size_t>(pbt::dict[s.below(pbt::dict.size())] % 5000);
			else r = s.below(6000);
	}
	return r > cap ? cap : r;
}

static const std::vector<Pt> &pool() {
	static const std::vector<Pt> v = [] {
		std::vector<Pt> r;
		const char *ks[] = {"1", "2", "3", "4", "5", "7", "15", "16", "17"};
		for (const char *k : ks) r.push_back(ref::mul(ref::base(), Num(k)));
		r.push_back(ref::neg(ref::base()));
		r.push_back(ref::mul(ref::base(), N() / 2));
		r.push_back(ref::mul(ref::base(), Num(1) << 128));
		r.push_back(ref::mul(ref::base(), Num("0x123456789abcdef0123456789abcdef0123456789abcdef")));
		// Points related by the endomorphism share y; the negatives share x
		Num beta("0x7AE96A2B657C07106E64479EAC3434E99CF0497512F58995C1396C28719501EE");
		size_t n = r.size();
		for (size_t i = 0; i < n; i += 3) r.push_back(Pt{false, ref::mulm(r[i].x, beta, P()), r[i].y});
		Pt q;
		for (int i = 0; i < 12; i++) {
			if (ref::liftX(i, false, q)) r.push_back(q);
			if (ref::liftX(P() - 1 - i, true, q)) r.push_back(q);
		}
		return r;
	}();
	return v;
}
static Pt pointFresh(Src &s, bool allowZero);
Pt point(Src &s, bool allowZero) {
	Pt r;
	if (!recall(s, r) || (r.inf && !allowZero)) return keep(s, pointFresh(s, allowZero));
	if (!r.inf) switch (s.weighted({4, 2, 1})) {
		case 0: break;
		case 1: r = ref::neg(r); break;
		default: r.x = ref::mulm(r.x, Num("0x7AE96A2B657C07106E64479EAC3434E99CF0497512F58995C1396C28719501EE"), P());
	}
	return r;
}
static Pt pointFresh(Src &s, bool allowZero) {
	Pt r;
	switch (s.weighted({4, 5, 1, allowZero ? 1u : 0u, 1})) {
		case 4:  // With a chosen y
			for (int i = 0; i < 6; i++) {
				Num y = s.flag() ? sparse(s) : field(s), x;
				if (root(ref::subm(ref::mulm(y, y, P()), 7, P()), 3, x)) return Pt{false, x, y};
			}
			return ref::base();
		case 0: r = pool()[s.below(pool().size())]; break;
		case 1: {  // Next liftable x from a generated one
			Num x = s.chance(1, 3) ? field(s) : uniform(s) % P();
			bool odd = s.flag();
			while (!ref::liftX(x, odd, r)) x = (x + 1) % P();
			return r;
		}
		case 2: return ref::mul(ref::base(), scalar(s));
		default: return ref::zero();
	}
	if (s.flag()) r = ref::neg(r);
	return r;
}
std::string str(const CurvePoint &c) { return "(" + str(num(c.x)) + ", " + str(num(c.y)) + ", " + str(num(c.z)) + ")"; }
std::string str(const Pt &p) { return p.inf ? "zero" : "(" + str(p.x) + ", " + str(p.y) + ")"; }
static Pt affine(const CurvePoint &c, const char *what) {
	Num x = num(c.x), y = num(c.y), z = num(c.z);
	REQUIRE(x < P() && y < P() && z < P(), "%s: coordinate not reduced below p: %s", what, str(c).c_str());
	if (z == 0) {
		REQUIRE(x == 0 && y != 0, "%s: not a valid point: %s", what, str(c).c_str());
		return ref::zero();
	}
	Num zi = ref::invm(z, P());
	return Pt{false, ref::mulm(x, zi, P()), ref::mulm(y, zi, P())};
}
Pt toPt(const CurvePoint &c, const char *what) {
	Pt r = affine(c, what);
	REQUIRE(r.inf || ref::onCurve(r.x, r.y), "%s: point is not on the curve: %s", what, str(c).c_str());
	return r;
}
Pt toPtOn(const CurvePoint &c, const Num &b, const char *what) {
	Pt r = affine(c, what);
	REQUIRE(r.inf || ref::subm(ref::mulm(r.y, r.y, P()), ref::mulm(r.x, ref::mulm(r.x, r.x, P()), P()), P()) == b, "%s: point has left its curve: %s", what, str(c).c_str());
	return r;
}

static Num anyScalarFresh(Src &s);
Num anyScalar(Src &s) {
	Num r;
	return recallNum(s, r) ? r : keep(s, anyScalarFresh(s));
}
static Num anyScalarFresh(Src &s) {
	switch (s.weighted({5, 3, 2, 2, 2})) {
		case 0: return u256(s);
		case 1: {  // Nibble patterns
			Num r = 0;
			static const unsigned T[] = {0, 1, 15, 8, 7, 2, 14};
			for (int i = 0; i < 64; i++) r = (r << 4) | (s.chance(1, 8) ? static_cast<unsigned>(s.below(16)) : T[s.below(7)]);
			return r;
		}
		case 2: { uint64_t d = s.chance(1, 5) ? 50 : s.below(80); return ref::N() + d - 20; }  // n + 30: the last step of a 4-bit window adds equal points
		case 3: return s.below(40);
		default: {  // Scalars that make the running sum meet a table entry
			Num t = s.range(0, 15);
			unsigned sh = 4 * static_cast<unsigned>(s.range(0, 2));
			Num k = (ref::N() + t) >> sh;
			return ((k << sh) + s.below(16)) & (ref::TWO256() - 1);
		}
	}
}

// A pair whose product has a chosen small residue, so that the quotient estimate of the reduction is at its boundary
void boundaryPair(Src &s, Num &x, Num &y) {
	Num t;
	switch (s.weighted({4, 2, 2, 1})) {
		case 0: t = Num(s.u64()) >> static_cast<unsigned>(s.below(40)); break;
		case 1: { uint64_t d = s.below(2000); t = ref::TWO256() - ref::P() + d - 1000; break; }
		case 2: t = ref::P() - 1 - (Num(s.u64()) >> static_cast<unsigned>(s.below(64))); break;
		default: t = s.below(40);
	}
	t %= ref::P();
	x = s.chance(1, 2) ? Num(ref::P() - 1 - (uniform(s) >> static_cast<unsigned>(s.range(1, 255)))) : Num(uniform(s) % ref::P());
	if (x == 0) x = 1;
	y = ref::mulm(t, ref::invm(x, ref::P()), ref::P());
}

Num anyHash(Src &s) {
	Num r;
	if (recallNum(s, r)) return r;
	switch (s.weighted({5, 2, 1})) {
		case 0: return u256(s);
		case 1: return keep(s, Num(ref::N() + u256(s) % (ref::TWO256() - ref::N())));  // At or above the order
		default: return s.below(3);
	}
}

// Private key, hash and nonce with r*key + hash or s at chosen places
void signInputs(Src &s, Num &d, Num &z, Num &k) {
	k = scalar(s);
	z = anyHash(s);
	size_t how = s.weighted({3, 4, 2});
	if (how == 0) { d = scalar(s); return; }
	Num r = ref::mul(ref::base(), k).x % ref::N(), t;
	if (r == 0) { d = scalar(s); return; }
	if (how == 1) {  // r*key mod n at a boundary relative to the hash
		uint64_t off = s.below(21);
		Num base;
		switch (s.below(5)) {
			case 0: base = ref::N() - 1; break;
			case 1: base = 0; break;
			case 2: base = ref::TWO256() + ref::N() - z % ref::N(); break;
			case 3: base = ref::TWO256() - z; break;
			default: base = (ref::N() * 2 - z % ref::N());
		}
		t = (base + ref::N() + off - 10) % ref::N();
		s.label("constructed sum");
	} else {  // s at a boundary
		Num target;
		switch (s.below(3)) {
			case 0: target = ref::N() / 2 + s.below(5) - 2; break;
			case 1: target = 1 + s.below(5); break;
			default: target = ref::N() - 1 - s.below(5); break;
		}
		t = ref::subm(ref::mulm(target, k, ref::N()), z, ref::N());
		s.label("constructed s");
	}
	d = ref::mulm(t, ref::invm(r, ref::N()), ref::N());
	if (d == 0) d = 1;
}

}
