/* C05 group law, C06 scalar multiplication, C07 normalization, predicates, serialization */
#include "gen.hpp"
using namespace gen;
using ref::P;
using ref::N;

static std::string raw(const CurvePoint &c) { return str(c); }

PROPERTY(point_add) {
	Pt a = point(s, true), b;
	switch (s.weighted({5, 3, 3, 1, 1, 1})) {
		case 0: b = point(s, true); break;
		case 1: b = a; s.label("P + P"); break;
		case 2: b = ref::neg(a); s.label("P + (-P)"); break;
		case 3: b = ref::zero(); break;
		case 4: b = ref::add(a, a); break;
		default:  // Same y: image under the endomorphism
			b = a.inf ? a : Pt{false, ref::mulm(a.x, Num("0x7AE96A2B657C07106E64479EAC3434E99CF0497512F58995C1396C28719501EE"), P()), a.y};
			s.label("same y");
	}
	bool solved = s.chance(1, 3);
	Num sa = solved && s.flag() ? scaleForTwice(s, a) : scale(s), sb = solved ? scaleForAdd(s, a, b, sa) : s.chance(1, 4) ? sa : scale(s);
	if (solved) s.label("an intermediate value is structured");
	CurvePoint ca = proj(a, sa), cb = proj(b, sb);
	s.note("a=%s b=%s", raw(ca).c_str(), raw(cb).c_str());
	if (a.inf || b.inf) s.label("zero operand");
	if (!a.inf && !b.inf && (sa != 1 || sb != 1)) s.nontrivial();
	CurvePoint b0 = cb;
	Pt exp = ref::add(a, b);
	CurvePoint c = ca;
	c.add(cb);
	Pt got = toPt(c, "add");
	REQUIRE(same(got, exp), "add gave %s, expected %s", str(got).c_str(), str(exp).c_str());
	REQUIRE(raw(cb) == raw(b0), "add modified its argument");
	CurvePoint d = cb;  // Commutes
	d.add(ca);
	REQUIRE(same(toPt(d, "add swapped"), exp), "add with swapped operands gave %s, expected %s", str(toPt(d, "add")).c_str(), str(exp).c_str());
	CurvePoint e = ca;
	e.twice();
	Pt two = ref::add(a, a);
	REQUIRE(same(toPt(e, "twice"), two), "twice gave %s, expected %s", str(toPt(e, "twice")).c_str(), str(two).c_str());
	// Continue with unnormalized results: (a+b) + a, (a+b) + (a+b) copy, (a+b) - (a+b)
	switch (s.below(4)) {
		case 0: { CurvePoint g = c; g.add(ca); REQUIRE(same(toPt(g, "(a+b)+a"), ref::add(exp, a)), "(a+b)+a is wrong"); break; }
		case 1: { CurvePoint g = c, h = c; g.add(h); REQUIRE(same(toPt(g, "x+x"), ref::add(exp, exp)), "x+x is wrong for x=a+b"); break; }
		case 2: {
			CurvePoint g = c, h = proj(ref::neg(exp), scale(s));
			g.add(h);
			REQUIRE(toPt(g, "x+(-x)").inf, "x+(-x) is not zero for x=a+b");
			g.add(ca);
			REQUIRE(same(toPt(g, "0+a"), a), "(x-x)+a is not a");
			break;
		}
		default: { CurvePoint g = c; g.twice(); REQUIRE(same(toPt(g, "twice"), ref::add(exp, exp)), "twice(a+b) is wrong"); }
	}
	CurvePoint rp = ca;  // Conditional copy
	bool en = s.flag();
	rp.replace(cb, en);
	REQUIRE(raw(rp) == raw(en ? cb : ca), "replace(%d) is wrong", en);
}

// Other curves y^2 = x^3 + b: the documented algorithms do not use b, and untrusted keys lie on any of them
PROPERTY(point_othercurve) {
	Pt a{false, field(s), s.chance(1, 5) ? Num(0) : field(s)}, q;
	Num b = ref::subm(ref::mulm(a.y, a.y, P()), ref::mulm(a.x, ref::mulm(a.x, a.x, P()), P()), P());
	Pt a2 = ref::add(a, a);
	switch (s.below(6)) {
		case 0: q = a; s.label("P + P"); break;
		case 1: q = ref::neg(a); s.label("P + (-P)"); break;
		case 2: q = ref::zero(); break;
		case 3: q = a2; break;
		case 4: q = ref::add(a2, a); break;
		default: q = Pt{false, ref::mulm(a.x, Num("0x7AE96A2B657C07106E64479EAC3434E99CF0497512F58995C1396C28719501EE"), P()), a.y};
	}
	CurvePoint c = proj(a, scale(s)), d = proj(q, scale(s)), e = c, f = d;
	s.note("a=%s b=%s", raw(c).c_str(), raw(d).c_str());
	if (a.y == 0) s.label("y = 0");
	s.nontrivial();
	c.add(d);
	Pt sum = ref::add(a, q), got = toPtOn(c, b, "add");
	REQUIRE(same(got, sum), "add gave %s, expected %s", str(got).c_str(), str(sum).c_str());
	f.add(e);
	got = toPtOn(f, b, "add swapped");
	REQUIRE(same(got, sum), "add with swapped operands gave %s, expected %s", str(got).c_str(), str(sum).c_str());
	e.twice();
	got = toPtOn(e, b, "twice");
	REQUIRE(same(got, a2), "twice gave %s, expected %s", str(got).c_str(), str(a2).c_str());
	c.add(e);  // Unnormalized operands
	sum = ref::add(sum, a2);
	got = toPtOn(c, b, "second add");
	REQUIRE(same(got, sum), "second add gave %s, expected %s", str(got).c_str(), str(sum).c_str());
}

// Random walks with many additions from a running sum, compared with the model at each step
PROPERTY(point_walk) {
	Pt m = ref::zero();
	CurvePoint c = proj(m, 1);
	size_t n = s.range(1, 12);
	for (size_t i = 0; i < n; i++) {
		switch (s.weighted({4, 3, 1, 1, 1})) {
			case 0: { Pt q = point(s, true); c.add(proj(q, scale(s))); m = ref::add(m, q); s.note("+%s", str(q).c_str()); break; }
			case 1: c.twice(); m = ref::add(m, m); s.note("twice"); break;
			case 2: { CurvePoint t = c; c.add(t); m = ref::add(m, m); s.note("+self"); break; }
			case 3: { CurvePoint t = proj(ref::neg(m), scale(s)); c.add(t); m = ref::zero(); s.note("-self"); break; }
			default: c.normalize(); s.note("normalize"); break;
		}
		Pt g = toPt(c, "walk");
		REQUIRE(same(g, m), "walk step %zu gave %s, expected %s", i, str(g).c_str(), str(m).c_str());
		if (!m.inf && i > 0) s.nontrivial();
	}
}

PROPERTY(point_multiply) {
	Pt a = point(s, true);
	Num k = anyScalar(s);
	CurvePoint c = proj(a, scale(s));
	s.note("P=%s k=%s", raw(c).c_str(), str(k).c_str());
	if (!a.inf && k > 16) s.nontrivial();
	if (k >= N()) s.label("scalar at or above n");
	if (a.inf) s.label("zero point");
	Uint256 u = U(k);
	c.multiply(u);
	Pt exp = ref::mul(a, k), got = toPt(c, "multiply");
	REQUIRE(same(got, exp), "multiply by %s gave %s, expected %s", str(k).c_str(), str(got).c_str(), str(exp).c_str());
	REQUIRE(num(u) == k, "multiply modified its scalar");
	c.normalize();
	got = toPt(c, "normalize");
	REQUIRE(same(got, exp) && (exp.inf ? num(c.y) == 1 : num(c.z) == 1), "normalized product is %s", raw(c).c_str());
}

PROPERTY(point_pubkey) {
	Num k = s.chance(1, 3) ? 1 + anyScalar(s) % (N() - 1) : scalar(s);
	s.note("k=%s", str(k).c_str());
	if (k > 16) s.nontrivial();
	Uint256 u = U(k);
	CurvePoint c = CurvePoint::privateExponentToPublicPoint(u);
	Pt exp = ref::mul(ref::base(), k);
	REQUIRE(num(c.z) == 1 && num(c.x) == exp.x && num(c.y) == exp.y, "public point of %s is %s, expected %s", str(k).c_str(), raw(c).c_str(), str(exp).c_str());
	REQUIRE(c.isOnCurve() && !c.isZero(), "public point fails the predicates");
	REQUIRE(num(u) == k, "private exponent was modified");
	REQUIRE(num(CurvePoint::G.x) == ref::base().x && num(CurvePoint::G.y) == ref::base().y && num(CurvePoint::G.z) == 1 && num(CurvePoint::ORDER) == N(), "curve constants changed");
}

PROPERTY(point_misc) {
	// Normalization of valid points
	Pt a = point(s, true), b = s.chance(1, 2) ? point(s, true) : s.flag() ? a : ref::neg(a);
	CurvePoint ca = proj(a, scale(s)), cb = proj(b, scale(s));
	s.note("a=%s b=%s", raw(ca).c_str(), raw(cb).c_str());
	if (!a.inf && num(ca.z) != 1) s.nontrivial();
	REQUIRE(ca.isZero() == a.inf && cb.isZero() == b.inf, "isZero is wrong before normalizing");
	CurvePoint na = ca, nb = cb;
	na.normalize();
	nb.normalize();
	for (int i = 0; i < 2; i++) {
		const CurvePoint &n = i ? nb : na;
		const Pt &m = i ? b : a;
		if (m.inf) REQUIRE(num(n.x) == 0 && num(n.y) == 1 && num(n.z) == 0, "zero normalizes to %s", raw(n).c_str());
		else REQUIRE(num(n.x) == m.x && num(n.y) == m.y && num(n.z) == 1, "%s normalizes to %s", str(m).c_str(), raw(n).c_str());
		CurvePoint t = n;
		t.normalize();
		REQUIRE(raw(t) == raw(n), "normalize is not idempotent: %s then %s", raw(n).c_str(), raw(t).c_str());
		REQUIRE(n.isZero() == m.inf, "isZero is wrong after normalizing");
		REQUIRE(n.isOnCurve() == !m.inf, "isOnCurve is wrong for %s", raw(n).c_str());
	}
	REQUIRE((na == nb) == same(a, b) && (na != nb) == !same(a, b), "equality of normalized points is wrong");
	s.label(same(a, b) ? "equal points" : "different points");
	REQUIRE((ca == cb) == (raw(ca) == raw(cb)) && (ca != cb) == (raw(ca) != raw(cb)), "coordinate equality is wrong");
	for (CurvePoint *c : {&ca, &na}) {  // One coordinate changed
		CurvePoint o = *c;
		FieldInt &f = s.flag() ? o.x : s.flag() ? o.y : o.z;
		put(f.value, s.flag() ? related(s, num(f)) % P() : ref::addm(num(f), sparse(s), P()));
		REQUIRE((o == *c) == (raw(o) == raw(*c)) && (*c != o) == (raw(o) != raw(*c)), "coordinate equality is wrong for %s and %s", raw(*c).c_str(), raw(o).c_str());
	}
	{
		uint8_t out[35];
		memset(out, 0xC3, sizeof out);
		if (!a.inf) {
			na.toCompressedPoint(out + 1);
			Bytes e = ref::compressed(a);
			REQUIRE(memcmp(out + 1, e.data(), 33) == 0, "compressed form of %s is %s", str(a).c_str(), pbt::hex(out + 1, 33).c_str());
			REQUIRE(out[0] == 0xC3 && out[34] == 0xC3, "toCompressedPoint wrote outside its output");
		}
	}
	// Arbitrary coordinates
	Num x = field(s), y = field(s), z;
	switch (s.weighted({3, 2, 1})) {
		case 0: z = 1; break;
		case 1: z = 0; break;
		default: z = field(s);
	}
	Pt near = point(s, false);
	switch (s.weighted({2, 1, 1, 1, 2, 1, 1})) {
		case 0: break;
		case 1: x = near.x; y = near.y; z = 1; break;
		case 2: x = near.x; y = related(s, near.y) % P(); z = 1; break;
		case 3: x = related(s, near.x) % P(); y = near.y; z = 1; break;
		case 4: x = s.chance(1, 3) ? sparse(s) : Num(s.below(2)); y = s.chance(1, 3) ? sparse(s) : Num(s.below(2)); z = s.chance(1, 3) ? sparse(s) : Num(s.below(2)); break;
		case 5: x = 0; break;
		default: y = 0; break;
	}
	CurvePoint c(F(x), F(y));
	put(c.z.value, z);
	s.note("c=%s", raw(c).c_str());
	bool zero = x == 0 && y != 0 && z == 0;
	REQUIRE(c.isZero() == zero, "isZero(%s) = %d", raw(c).c_str(), c.isZero());
	if (z == 1 || zero) {
		bool on = !zero && ref::onCurve(x, y);
		s.label(on ? "arbitrary: on curve" : "arbitrary: off curve");
		REQUIRE(c.isOnCurve() == on, "isOnCurve(%s) = %d", raw(c).c_str(), c.isOnCurve());
	}
	CurvePoint n = c;
	n.normalize();
	if (z != 0) {
		Num zi = ref::invm(z, P());
		REQUIRE(num(n.x) == ref::mulm(x, zi, P()) && num(n.y) == ref::mulm(y, zi, P()) && num(n.z) == 1, "normalize(%s) = %s", raw(c).c_str(), raw(n).c_str());
	} else {  // isZero() is documented to agree with comparing the normalized point with ZERO
		REQUIRE((n == CurvePoint::ZERO) == zero, "normalize(%s) = %s but isZero is %d", raw(c).c_str(), raw(n).c_str(), zero);
		CurvePoint t = n;
		t.normalize();
		REQUIRE(raw(t) == raw(n), "normalize is not idempotent on %s", raw(c).c_str());
	}
	// Serialization of any normalized coordinates
	CurvePoint q(F(x), F(y));
	REQUIRE(num(q.z) == 1 && num(q.x) == x && num(q.y) == y, "constructor gave %s", raw(q).c_str());
	uint8_t out[33];
	q.toCompressedPoint(out);
	REQUIRE(out[0] == ((y & 1) != 0 ? 3 : 2) && ref::fromBE(out + 1, 32) == x, "compressed form is %s", pbt::hex(out, 33).c_str());
	Bytes hx = ref::toBE(x, 32), hy = ref::toBE(y, 32);
	CurvePoint sp(pbt::hex(hx.data(), 32).c_str(), pbt::hex(hy.data(), 32).c_str());
	REQUIRE(sp == q, "string constructor gave %s", raw(sp).c_str());
}
