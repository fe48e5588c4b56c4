/* C04 field arithmetic */
#include "gen.hpp"
using namespace gen;
using ref::P;

// With or without reciprocals (the group law uses none)
static void fieldArith(pbt::Src &s, bool withReciprocal) {
	const Num &p = P();
	constexpr int K = 3;
	Num m[K];
	bool bp = s.chance(1, 4);
	if (bp) { boundaryPair(s, m[0], m[1]); m[2] = field(s); s.label("boundary product"); }
	else {
		m[0] = field(s);
		m[1] = s.chance(1, 4) ? related(s, m[0]) % p : s.chance(1, 8) ? Num((p - m[0]) % p) : field(s);
		m[2] = field(s);
	}
	for (int i = 0; i < K; i++) s.note("f%d=%s", i, str(m[i]).c_str());
	FieldInt f[K] = {F(m[0]), F(m[1]), F(m[2])};
	size_t steps = s.range(1, 6);
	for (size_t k = 0; k < steps; k++) {
		int i = static_cast<int>(s.below(K)), j = static_cast<int>((i + 1 + s.below(K - 1)) % K);
		if (bp && k == 0) { i = 0; j = 1; }
		const char *name = "";
		Num before = m[i];
		size_t op = s.weighted({8, 5, 3, 2, 2, withReciprocal ? 1u : 0u, 2});
		switch (op) {
			case 0: name = "multiply"; f[i].multiply(f[j]); m[i] = ref::mulm(m[i], m[j], p); break;
			case 1: name = "square"; f[i].square(); m[i] = ref::mulm(m[i], m[i], p); break;
			case 2: name = "add"; s.label(m[i] + m[j] >= ref::TWO256() ? "add overflows 2^256" : m[i] + m[j] >= p ? "add reduces" : "add"); f[i].add(f[j]); m[i] = (m[i] + m[j]) % p; break;
			case 3: name = "subtract"; f[i].subtract(f[j]); m[i] = ref::subm(m[i], m[j], p); break;
			case 4: name = "multiply2"; f[i].multiply2(); m[i] = (m[i] * 2) % p; break;
			case 5: name = "reciprocal"; f[i].reciprocal(); m[i] = m[i] == 0 ? Num(0) : ref::invm(m[i], p); break;
			default: name = "multiply by itself"; f[i].multiply(f[i]); m[i] = ref::mulm(m[i], m[i], p); break;
		}
		s.note("f%d.%s(f%d)", i, name, j);
		if (before > 1 && m[i] != before) s.nontrivial();
		for (int q = 0; q < K; q++)
			REQUIRE(num(f[q]) == m[q], "after f%d.%s(f%d): f%d = %s, expected %s", i, name, j, q, str(num(f[q])).c_str(), str(m[q]).c_str());
	}
}

PROPERTY(field_arith) { fieldArith(s, true); }
PROPERTY(field_core) { fieldArith(s, false); }

PROPERTY(field_boundary_square) {
	// x with x^2 = +-t for a chosen small t
	Num t = s.flag() ? Num(Num(s.u64()) >> static_cast<unsigned>(s.below(63))) : Num(ref::TWO256() - P() + s.below(4000) - 2000);
	Num x = ref::powm(t, (P() + 1) / 4, P());
	if (s.flag() && x != 0) x = P() - x;
	s.note("x=%s", str(x).c_str());
	if (x > 1) s.nontrivial();
	FieldInt f = F(x);
	f.square();
	Num e = ref::mulm(x, x, P());
	s.label(e < (Num(1) << 64) ? "small square" : "other square");
	REQUIRE(num(f) == e, "square of %s gave %s, expected %s", str(x).c_str(), str(num(f)).c_str(), str(e).c_str());
}

PROPERTY(field_construct) {
	Num x = u256(s);
	s.note("x=%s", str(x).c_str());
	if (x >= P()) { s.label("at or above p"); s.nontrivial(); }
	else if (x > 1) s.nontrivial();
	Uint256 u = U(x);
	FieldInt f(u);
	REQUIRE(num(f) == x % P(), "FieldInt(%s) = %s", str(x).c_str(), str(num(f)).c_str());
	REQUIRE(num(u) == x, "argument was modified");
	Bytes b = ref::toBE(x, 32);
	std::string h = pbt::hex(b.data(), 32);
	if (s.flag()) for (char &c : h) if (c >= 'a') c = static_cast<char>(c - 32);
	if (x < P()) REQUIRE(num(FieldInt(h.c_str())) == x % P(), "FieldInt(\"%s\") = %s", h.c_str(), str(num(FieldInt(h.c_str()))).c_str());
	uint8_t out[32];
	f.getBigEndianBytes(out);
	REQUIRE(ref::fromBE(out, 32) == x % P(), "bytes of the field element are wrong");
}
