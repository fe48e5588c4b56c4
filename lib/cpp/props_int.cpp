/* C01 arithmetic, C02 comparisons/conditional operations/conversions, C03 reciprocal of Uint256 */
#include "gen.hpp"
using namespace gen;
using pbt::fail;
using ref::TWO256;

namespace {

struct Regs {
	static constexpr int K = 3;
	Num m[K];
	Uint256 u[K];
	void check(const char *op, pbt::Src &) const {
		for (int i = 0; i < K; i++)
			REQUIRE(num(u[i]) == m[i], "after %s: number %d is %s, expected %s", op, i, str(num(u[i])).c_str(), str(m[i]).c_str());
	}
};

void fill(pbt::Src &s, Regs &r) {
	r.m[0] = u256(s);
	for (int i = 1; i < Regs::K; i++) r.m[i] = related(s, r.m[i - 1]);
	for (int i = 0; i < Regs::K; i++) { put(r.u[i].value, r.m[i]); s.note("v%d=%s", i, str(r.m[i]).c_str()); }
}

}

PROPERTY(uint_arith) {
	Regs r;
	fill(s, r);
	size_t steps = s.range(1, 6);
	for (size_t k = 0; k < steps; k++) {
		size_t op = s.below(4);
		int i = static_cast<int>(s.below(Regs::K)), j = static_cast<int>((i + 1 + s.below(Regs::K - 1)) % Regs::K);
		bool en = !s.chance(1, 4), dflt = en && s.chance(1, 3);
		uint32_t got = 0;
		Num before = r.m[i];
		Num exp = 0;
		const char *name = "";
		switch (op) {
			case 0: {
				name = "add";
				s.note("v%d.add(v%d, %d)", i, j, en);
				got = dflt ? r.u[i].add(r.u[j]) : r.u[i].add(r.u[j], en);
				Num sum = before + (en ? r.m[j] : Num(0));
				exp = sum >> 256;
				r.m[i] = sum & (TWO256() - 1);
				s.label(exp != 0 ? "add carry" : "add no carry");
				break;
			}
			case 1: {
				name = "subtract";
				s.note("v%d.subtract(v%d, %d)", i, j, en);
				got = dflt ? r.u[i].subtract(r.u[j]) : r.u[i].subtract(r.u[j], en);
				Num sub = en ? r.m[j] : Num(0);
				exp = before < sub ? 1 : 0;
				r.m[i] = (before + TWO256() - sub) & (TWO256() - 1);
				s.label(exp != 0 ? "subtract borrow" : "subtract no borrow");
				break;
			}
			case 2:
				name = "shiftLeft1";
				s.note("v%d.shiftLeft1()", i);
				got = r.u[i].shiftLeft1();
				exp = before >> 255;
				r.m[i] = (before << 1) & (TWO256() - 1);
				break;
			default:
				name = "shiftRight1";
				s.note("v%d.shiftRight1(%d)", i, en);
				if (dflt) r.u[i].shiftRight1(); else r.u[i].shiftRight1(en);
				if (en) r.m[i] = before >> 1;
				break;
		}
		if (!en && op != 2) s.label("disabled");
		if (before != 0 && r.m[i] != before) s.nontrivial();
		REQUIRE(Num(got) == exp, "%s of %s (enable=%d) returned %u, expected %s", name, str(before).c_str(), en, got, str(exp).c_str());
		r.check(name, s);
	}
}

static void checkCompare(const Uint256 &a, const Uint256 &b, const Num &x, const Num &y) {
	REQUIRE((a == b) == (x == y), "operator== wrong");
	REQUIRE((a != b) == (x != y), "operator!= wrong");
	REQUIRE((a <  b) == (x <  y), "operator< wrong");
	REQUIRE((a <= b) == (x <= y), "operator<= wrong");
	REQUIRE((a >  b) == (x >  y), "operator> wrong");
	REQUIRE((a >= b) == (x >= y), "operator>= wrong");
}

static void misc(pbt::Src &s, bool conversions) {
	Regs r;
	fill(s, r);
	size_t steps = s.range(1, 4);
	for (size_t k = 0; k < steps; k++) {
		int i = static_cast<int>(s.below(Regs::K)), j = static_cast<int>((i + 1 + s.below(Regs::K - 1)) % Regs::K);
		bool en = s.flag();
		switch (s.below(conversions ? 5 : 3)) {
			case 0:
				s.note("v%d.replace(v%d, %d)", i, j, en);
				r.u[i].replace(r.u[j], en);
				if (en) r.m[i] = r.m[j];
				r.check("replace", s);
				break;
			case 1:
				s.note("v%d.swap(v%d, %d)", i, j, en);
				r.u[i].swap(r.u[j], en);
				if (en) std::swap(r.m[i], r.m[j]);
				r.check("swap", s);
				break;
			case 2:
				s.note("compare v%d v%d", i, j);
				s.label(r.m[i] == r.m[j] ? "compare equal" : (r.m[i] >> 32) == (r.m[j] >> 32) ? "compare differ low word" : "compare unequal");
				checkCompare(r.u[i], r.u[j], r.m[i], r.m[j]);
				checkCompare(r.u[j], r.u[i], r.m[j], r.m[i]);
				checkCompare(r.u[i], r.u[i], r.m[i], r.m[i]);
				r.check("comparisons", s);
				break;
			case 3: {
				s.note("bytes of v%d", i);
				uint8_t b[34];
				memset(b, 0xA5, sizeof b);
				r.u[i].getBigEndianBytes(b + 1);
				Bytes exp = ref::toBE(r.m[i], 32);
				REQUIRE(b[0] == 0xA5 && b[33] == 0xA5, "getBigEndianBytes wrote outside its 32 bytes");
				REQUIRE(memcmp(b + 1, exp.data(), 32) == 0, "getBigEndianBytes gave %s, expected %s", pbt::hex(b + 1, 32).c_str(), pbt::hex(exp.data(), 32).c_str());
				Uint256 back(static_cast<const uint8_t *>(b + 1));
				REQUIRE(num(back) == r.m[i], "from bytes gave %s", str(num(back)).c_str());
				FieldInt f(F(r.m[i] % ref::P()));
				uint8_t c[32];
				f.getBigEndianBytes(c);
				REQUIRE(ref::fromBE(c, 32) == r.m[i] % ref::P(), "FieldInt bytes wrong");
				REQUIRE(num(Uint256(f)) == r.m[i] % ref::P(), "conversion from FieldInt gave %s", str(num(Uint256(f))).c_str());
				break;
			}
			default: {
				Bytes e = ref::toBE(r.m[i], 32);
				std::string h = pbt::hex(e.data(), 32);
				size_t mode = s.below(3);
				for (char &c : h) if (c >= 'a' && (mode == 1 || (mode == 2 && s.flag()))) c = static_cast<char>(c - 32);
				s.note("hex %s", h.c_str());
				REQUIRE(num(Uint256(h.c_str())) == r.m[i], "from hex %s gave %s", h.c_str(), str(num(Uint256(h.c_str()))).c_str());
			}
		}
		if (r.m[i] != r.m[j]) s.nontrivial();
	}
	// Field elements share the comparisons and the conditional copy
	Num x = r.m[0] % ref::P(), y = r.m[1] % ref::P();
	FieldInt a = F(x), b = F(y);
	REQUIRE((a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y) && (a <= b) == (x <= y) && (a > b) == (x > y) && (a >= b) == (x >= y),
		"FieldInt comparison of %s and %s wrong", str(x).c_str(), str(y).c_str());
	bool en = s.flag();
	a.replace(b, en);
	REQUIRE(num(a) == (en ? y : x) && num(b) == y, "FieldInt replace(%d) wrong", en);
	static const Num z(0), o(1);
	REQUIRE(num(Uint256::ZERO) == z && num(Uint256::ONE) == o && num(Uint256()) == z, "constants changed");
}
PROPERTY(uint_misc) { misc(s, true); }
PROPERTY(uint_core) { misc(s, false); }

static void checkReciprocal(pbt::Src &s, const Num &m, const Num *slow = nullptr);

// A coprime pair for which a binary Euclidean algorithm takes many steps, built by running its steps backwards from (1, 0)
static bool slowPair(pbt::Src &s, Num &m, Num &x) {
	const Num limit = TWO256() - 1;
	Num a = 1, b = 2;
	size_t doublings = s.below(16), other = s.below(4);
	for (int i = 0; i < 520; i++) {
		size_t k = s.below(16);
		bool dbl = k < doublings || (i < 500 && doublings == 15);
		Num na = a, nb = b;
		if (dbl) nb = 2 * b;
		else if (k % 4 >= other) { na = a + b; nb = 2 * a; }
		else nb = 2 * (a + b);
		if (na > limit || nb > limit) {  // Too large: trade places, or stop
			na = a + b; nb = 2 * a;
			if (na > limit || nb > limit) break;
		}
		a = na; b = nb;
	}
	if (b > a) { if (b / 2 < a) b /= 2; else b %= a; }
	m = a; x = b;
	return m >= 3 && x != 0 && x < m && (m & 1) == 1 && ref::gcd(x, m) == 1;
}

namespace { struct Reciprocal { Num m, x; }; }
PROPERTY(uint_reciprocal) {
	Num m, x;
	Reciprocal prev;
	if (recall(s, prev, 1, 2)) {
		m = prev.m;
		x = prev.x;
		vary(s, m);
		vary(s, x);
		m |= 1;
		checkReciprocal(s, m < 3 ? Num(3) : m, &x);
		return;
	}
	switch (s.weighted({3, 1, 1, 2, 1, 1, 1})) {
		case 5: m = (Num(1) << static_cast<unsigned>(2 + s.below(254))) + 1 + 2 * s.below(20); break;
		case 6: if (slowPair(s, m, x)) { s.label("many steps"); checkReciprocal(s, m, &x); return; } m = 3; break;
		case 0: m = u256(s) | 1; break;
		case 1: m = ref::N(); break;
		case 2: m = ref::P(); break;
		case 3: { uint64_t d = s.below(40); m = TWO256() - 1 - 2 * d; break; }
		default: m = 3 + 2 * s.below(300); break;
	}
	checkReciprocal(s, m < 3 ? Num(3) : m);
}

// Only the two moduli that the curve operations and signatures use
PROPERTY(reciprocal_n) { checkReciprocal(s, ref::N()); }
PROPERTY(reciprocal_p) { checkReciprocal(s, ref::P()); }

static void checkReciprocal(pbt::Src &s, const Num &m, const Num *slow) {
	Num x;
	switch (slow != nullptr ? 7 : s.weighted({5, 1, 1, 1, 1, 1, 1})) {
		case 7: x = *slow; break;
		case 6: {  // A small odd number, shifted: takes nearly the greatest number of steps
			Num c = 1 + 2 * s.below(20);
			x = c;
			size_t most = 0;
			while ((c << static_cast<unsigned>(most + 1)) < m && most < 255) most++;
			x = c << static_cast<unsigned>(s.flag() ? most : s.below(most + 1));
			s.label("small odd number shifted");
			break;
		}
		case 0: x = below(s, m); break;
		case 1: x = (m - 1) / 2 + s.below(3); break;
		case 2: x = (Num(1) << static_cast<unsigned>(s.below(256))); break;
		case 3: x = 0; break;
		case 4: x = u256(s) % m; if (x != 0 && ref::gcd(x, m) == 1) { s.label("reciprocal is structured"); x = ref::invm(x, m); } break;
		default: x = m - 1 - Num(s.below(50)) % m; break;
	}
	x %= m;
	if (x != 0) {  // Make it coprime by construction: strip common factors, or move on
		int tries = 0;
		while (ref::gcd(x, m) != 1 && tries++ < 64) x = (x + 1) % m == 0 ? Num(1) : Num((x + 1) % m);
		if (ref::gcd(x, m) != 1) x = 1;
	}
	keep(s, Reciprocal{m, x});
	s.note("x=%s m=%s", str(x).c_str(), str(m).c_str());
	if (m == TWO256() - 1) s.label("modulus 2^256-1");
	else if ((m >> 255) != 0) s.label("modulus above 2^255");
	else if ((m >> 64) == 0) s.label("modulus below 2^64");
	if (x == 0) s.label("zero");
	if (x > 1) s.nontrivial();
	Uint256 u = U(x), um = U(m);
	u.reciprocal(um);
	Num y = num(u);
	REQUIRE(num(um) == m, "modulus was modified");
	if (x == 0) REQUIRE(y == 0, "reciprocal of zero is %s", str(y).c_str());
	else REQUIRE(y > 0 && y < m && (x * y) % m == 1, "reciprocal of %s mod %s gave %s", str(x).c_str(), str(m).c_str(), str(y).c_str());
}
