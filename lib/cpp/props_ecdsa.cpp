/* C08 signing, C09 refused signing, C10 verification, C11 deterministic signing */
#include "gen.hpp"
#include "inject.hpp"
#include "Ecdsa.hpp"
using namespace gen;
using ref::P;
using ref::N;
using ref::mulm;
using ref::invm;
using ref::subm;

static void checkSign(Src &s, const Num &d, const Num &z, const Num &k) {
	Uint256 ud = U(d), uk = U(k), r = U(u256(s)), t = U(u256(s));
	Num r0 = num(r), s0 = num(t);
	Sha256Hash h = H(z);
	s.note("key=%s hash=%s nonce=%s", str(d).c_str(), str(z).c_str(), str(k).c_str());
	ref::Ecdsa e = ref::sign(d, z, k);
	bool ok = Ecdsa::sign(ud, h, uk, r, t);
	REQUIRE(ok == e.ok, "sign returned %d, expected %d", ok, e.ok);
	if (e.ok) {
		REQUIRE(num(r) == e.r && num(t) == e.s, "sign gave r=%s s=%s, expected r=%s s=%s", str(num(r)).c_str(), str(num(t)).c_str(), str(e.r).c_str(), str(e.s).c_str());
		REQUIRE(num(t) <= N() / 2 && num(t) > 0 && num(r) > 0 && num(r) < N(), "signature is out of range");
	} else {
		s.label(k == 0 || k >= N() ? "refused: nonce" : "refused: r or s zero");
		REQUIRE(num(r) == r0 && num(t) == s0, "failed sign changed an output: r=%s s=%s", str(num(r)).c_str(), str(num(t)).c_str());
	}
	REQUIRE(num(ud) == d && num(uk) == k && ref::fromBE(h.value, 32) == z, "sign modified an input");
}

PROPERTY(ecdsa_sign) {
	Num d, z, k;
	signInputs(s, d, z, k);
	if (z >= N()) s.label("hash at or above n");
	s.nontrivial();
	checkSign(s, d, z, k);
}

PROPERTY(ecdsa_refuse) {
	Num d = scalar(s), z = anyHash(s), k;
	switch (s.weighted({2, 4, 4, 2})) {
		case 0: k = 0; break;
		case 1: k = s.flag() ? Num(N() + s.below(10)) : Num(N() + u256(s) % (ref::TWO256() - N())); break;
		case 2: {  // s = 0
			k = scalar(s);
			Num r = ref::mul(ref::base(), k).x % N();
			if (z % N() == 0) z = 1 + s.below(5);
			d = subm(0, mulm(z, invm(r, N()), N()), N());
			break;
		}
		default:  // Around the valid range, mostly accepted
			k = s.flag() ? Num(N() - 1 - s.below(3)) : Num(1 + s.below(3));
	}
	s.nontrivial();
	checkSign(s, d, z, k);
}

// The nonce's point is replaced by one whose x coordinate is chosen: zero modulo n, or at or above n (nobody knows a nonce
// with such a point, so no call can get there)
PROPERTY(ecdsa_inject_point) {
	Num d = scalar(s), z = anyHash(s), k = scalar(s), x;
	switch (s.below(6)) {
		case 0: case 1: x = N(); break;
		case 2: x = s.flag() ? 0 : 1 + s.below(3); break;
		case 3: x = N() + 1 + s.below(5); break;
		case 4: x = P() - 1 - s.below(5); break;
		default: x = N() + uniform(s) % (P() - N());
	}
	Num y = field(s), r = x % N();
	if (r != 0 && s.flag()) {  // The sum or s at a boundary
		Num t = s.flag() ? Num((N() + s.below(3) - 1) % N()) : s.flag() ? mulm(N() / 2 + s.below(4) - 1, k, N()) : mulm(1 + s.below(3), k, N());
		d = mulm(subm(t, z, N()), invm(r, N()), N());
		if (d == 0) d = 1;
	}
	bool hmac = s.chance(1, 3);
	Uint256 ud = U(d), uk = U(k), ur = U(u256(s)), us = U(u256(s));
	Num r0 = num(ur), s0 = num(us);
	Sha256Hash h = H(z);
	s.note("key=%s hash=%s nonce=%s, whose point is made (%s, %s)%s", str(d).c_str(), str(z).c_str(), str(k).c_str(), str(x).c_str(), str(y).c_str(), hmac ? ", nonce injected" : "");
	Bytes b = ref::toBE(x, 32), c = ref::toBE(y, 32), kb = ref::toBE(k, 32);
	memcpy(inject::point, b.data(), 32);
	memcpy(inject::point + 32, c.data(), 32);
	memset(inject::out, 0, sizeof inject::out);
	memcpy(inject::out, kb.data(), 32);
	inject::used = inject::pointUsed = false;
	inject::active = hmac;
	inject::pointActive = true;
	bool ok = hmac ? Ecdsa::signWithHmacNonce(ud, h, ur, us) : Ecdsa::sign(ud, h, uk, ur, us);
	inject::active = inject::pointActive = false;
	if (!inject::pointUsed || (hmac && !inject::used)) {
		s.label("injection not reached");
		return;
	}
	s.nontrivial();
	Num t = mulm(invm(k, N()), (z + r * d) % N(), N());
	bool exp = r != 0 && t != 0;
	if (N() - t < t) t = N() - t;
	s.label(exp ? "signed" : r == 0 ? "r is zero" : "s is zero");
	REQUIRE(ok == exp, "%s returned %d, expected %d", hmac ? "signWithHmacNonce" : "sign", ok, exp);
	if (exp) REQUIRE(num(ur) == r && num(us) == t, "signature r=%s s=%s, expected r=%s s=%s", str(num(ur)).c_str(), str(num(us)).c_str(), str(r).c_str(), str(t).c_str());
	else REQUIRE(num(ur) == r0 && num(us) == s0, "failed signing changed an output");
}

PROPERTY(ecdsa_refuse_hmac) {
	Num d = scalar(s), z = anyHash(s), k;
	switch (s.weighted({2, 3, 2, 2})) {
		case 0: k = 0; break;
		case 1: k = s.flag() ? Num(N() + s.below(10)) : Num(N() + u256(s) % (ref::TWO256() - N())); break;
		case 2: {
			k = scalar(s);
			Num r = ref::mul(ref::base(), k).x % N();
			if (z % N() == 0) z = 1 + s.below(5);
			d = subm(0, mulm(z, invm(r, N()), N()), N());
			break;
		}
		default: k = 1 + s.below(3);
	}
	s.note("key=%s hash=%s injected nonce=%s", str(d).c_str(), str(z).c_str(), str(k).c_str());
	Uint256 ud = U(d), r = U(u256(s)), t = U(u256(s));
	Num r0 = num(r), s0 = num(t);
	Sha256Hash h = H(z);
	Bytes kb = ref::toBE(k, 32);
	memset(inject::out, 0, sizeof inject::out);
	memcpy(inject::out, kb.data(), 32);
	inject::active = true;
	inject::used = false;
	bool ok = Ecdsa::signWithHmacNonce(ud, h, r, t);
	inject::active = false;
	if (!inject::used) {  // Cannot inject: then it must be an ordinary signature
		s.label("injection not reached");
		Bytes n = ref::hmac256(ref::toBE(d, 32), ref::toBE(z, 32));
		k = ref::fromBE(n.data(), 32);
	} else
		s.nontrivial();
	ref::Ecdsa e = ref::sign(d, z, k);
	REQUIRE(ok == e.ok, "signWithHmacNonce returned %d, expected %d", ok, e.ok);
	if (e.ok) REQUIRE(num(r) == e.r && num(t) == e.s, "signature r=%s s=%s, expected r=%s s=%s", str(num(r)).c_str(), str(num(t)).c_str(), str(e.r).c_str(), str(e.s).c_str());
	else REQUIRE(num(r) == r0 && num(t) == s0, "failed signing changed an output");
}

static void checkVerify(Src &s, const CurvePoint &q, bool validKey, const Pt &qm, const Num &z, const Num &r, const Num &t, const char *what) {
	Uint256 ur = U(r), us = U(t);
	Sha256Hash h = H(z);
	CurvePoint q0 = q;
	s.note("%s: Q=%s hash=%s r=%s s=%s", what, str(q).c_str(), str(z).c_str(), str(r).c_str(), str(t).c_str());
	bool exp = validKey && ref::verify(qm, z, r, t);
	bool got = Ecdsa::verify(q, h, ur, us);
	s.label(exp ? "accepted" : "rejected");
	REQUIRE(got == exp, "verify (%s) returned %d, expected %d", what, got, exp);
	REQUIRE(num(ur) == r && num(us) == t && ref::fromBE(h.value, 32) == z && str(q) == str(q0), "verify modified an argument");
}

// A key that is not on the curve, and a hash, r and s that would be a signature if nothing checked the key:
// the group law never uses the curve's constant, so it works on every curve y^2 = x^3 + b. Keys on a curve that is
// isomorphic to the right one are also annihilated by the group order.
static CurvePoint foreignKey(Src &s, Num &z, Num &r, Num &t, const char *&what) {
	const Num &p = P();
	Pt a = point(s, false);  // The key is iso(a), at (x/z, y/z) of the triple
	Num sc = 1;
	auto iso = [&p](const Pt &q, const Num &u) { return q.inf ? q : Pt{false, mulm(q.x, mulm(u, u, p), p), mulm(q.y, mulm(u, mulm(u, u, p), p), p)}; };
	Num u;
	bool any = false;
	switch (s.below(4)) {
		case 0: what = "key on an isomorphic curve"; u = scale(s); break;
		case 1: {
			// z^3 u^6 (y^2 - z x^3) z^-1 = 7 makes the triple's own x and y satisfy the equation, whatever z is
			what = "key with x and y on the curve but z not one";
			u = 0;
			for (int i = 0; i < 60 && u == 0; i++) {
				sc = i < 30 ? 2 + s.below(1000) : field(s);
				if (sc < 2) continue;
				Num m = mulm(mulm(sc, sc, p), subm(mulm(a.y, a.y, p), mulm(sc, mulm(a.x, mulm(a.x, a.x, p), p), p), p), p);
				if (m == 0) continue;
				Num w = mulm(7, invm(m, p), p);
				if (ref::powm(w, (p - 1) / 6, p) != 1) continue;
				u = ref::powm(ref::powm(w, (p + 1) / 4, p), (p + 2) / 9, p);
			}
			if (u == 0) { u = 2; sc = 1; }
			break;
		}
		case 2: what = "key not normalized and not on the curve"; u = scale(s); sc = scale(s); break;
		default: what = "key on another curve"; any = true; a = Pt{false, s.flag() ? a.x : field(s), field(s)}; u = 1;
	}
	Pt q = iso(a, u);
	Num u2 = 1 + uniform(s) % (N() - 1), u1 = s.flag() ? Num(0) : scalar(s);
	Pt R = any ? ref::mul(q, u2) : iso(ref::mul(a, u2), u);
	R = ref::add(ref::mul(ref::base(), u1), R);
	r = R.inf ? Num(1) : Num(R.x % N());
	if (r == 0) r = 1;
	t = mulm(r, invm(u2, N()), N());
	z = mulm(u1, t, N());
	return proj(q, sc);
}

struct Signed { Pt q; Num z, r, t; };
PROPERTY(ecdsa_verify) {
	Num d = scalar(s), z = anyHash(s), r, t;
	Pt q;
	const char *what = "";
	// A starting point that is usually a valid signature
	switch (s.weighted({5, 3, 3, 2, 2, 1})) {
		case 0: {
			what = "signed";
			q = ref::mul(ref::base(), d);
			Num k = s.chance(1, 3) ? scalar(s) : 1 + uniform(s) % (N() - 1);
			ref::Ecdsa e = ref::sign(d, z, k);
			r = e.ok ? e.r : Num(1);
			t = e.ok ? e.s : Num(1);
			break;
		}
		case 1: case 2: {  // Key recovery from a chosen nonce point
			what = "recovered";
			Pt R;
			Num x;
			switch (s.below(3)) {
				case 0: what = "recovered, x >= n"; x = N() + s.below(1000000); break;
				case 1: what = "recovered, small x"; x = 1 + s.below(1000000); break;
				default: x = field(s);
			}
			while (!ref::liftX(x, s.flag(), R)) x = (x + 1) % P();
			r = R.x % N();
			if (r == 0) r = 1;
			t = scalar(s);
			q = ref::add(ref::mul(R, mulm(t, invm(r, N()), N())), ref::neg(ref::mul(ref::base(), mulm(z, invm(r, N()), N()))));
			break;
		}
		case 3: {  // The two halves of the sum cancel out
			what = "zero sum";
			q = ref::mul(ref::base(), d);
			r = scalar(s);
			t = scalar(s);
			z = subm(0, mulm(r, d, N()), N());
			if (s.flag()) r = ref::mul(ref::base(), scalar(s)).x % N();
			z = subm(0, mulm(r, d, N()), N());
			break;
		}
		case 4: {  // The two halves are equal
			what = "equal halves";
			q = ref::mul(ref::base(), d);
			Num k = scalar(s);
			r = ref::mul(ref::base(), k).x % N();
			z = mulm(r, d, N());
			t = mulm(mulm(2, z, N()), invm(k, N()), N());
			break;
		}
		default: {
			what = "hash is zero modulo n";
			z = s.flag() ? Num(0) : N();
			q = ref::mul(ref::base(), d);
			ref::Ecdsa e = ref::sign(d, z, 1 + uniform(s) % (N() - 1));
			r = e.r;
			t = e.s;
		}
	}
	if (q.inf) q = ref::base();
	Signed prev;
	if (recall(s, prev, 1, 2)) {
		what = "an earlier signature";
		if (!s.chance(1, 6)) q = prev.q;
		if (!s.chance(1, 6)) z = prev.z;
		if (!s.chance(1, 6)) r = prev.r;
		if (!s.chance(1, 6)) t = prev.t;
	} else {
		keep(s, Signed{q, z, r, t});
		keep(s, q);
	}
	s.label(what);
	s.nontrivial();
	CurvePoint key = proj(q, 1);
	size_t mut = s.weighted({5, 2, 1, 2, 2, 2, 1, 2, 2, 1, 1, 3});
	switch (mut) {
		case 0: checkVerify(s, key, true, q, z, r, t, what); return;
		case 1: checkVerify(s, key, true, q, z, r, (N() - t) % N(), "negated s"); return;
		case 2: checkVerify(s, proj(ref::neg(q), 1), true, ref::neg(q), z, r, t, "negated key"); return;
		case 3: {  // Same values plus the order, if they fit
			bool which = s.flag();
			Num r2 = which ? Num(r + N()) : r, t2 = which ? t : Num(t + N());
			if (r2 >= ref::TWO256()) r2 = N() + s.below(5);
			if (t2 >= ref::TWO256()) t2 = N() + s.below(5);
			checkVerify(s, key, true, q, z, r2, t2, "value plus n");
			return;
		}
		case 4: {  // Range ends
			Num edge[] = {0, N(), N() + 1, N() - 1, ref::TWO256() - 1, 1};
			Num e = edge[s.below(6)];
			if (s.flag()) r = e; else t = e;
			checkVerify(s, key, true, q, z, r, t, "range");
			return;
		}
		case 5: checkVerify(s, key, true, q, z ^ (Num(1) << static_cast<unsigned>(s.below(256))), r, t, "hash bit flipped"); return;
		case 6: {
			Num b = Num(1) << static_cast<unsigned>(s.below(256));
			if (s.flag()) r ^= b; else t ^= b;
			checkVerify(s, key, true, q, z, r, t, "r or s bit flipped");
			return;
		}
		case 7: {  // Not normalized
			Num sc = scale(s);
			if (sc == 1) sc = 2 + s.below(9);
			checkVerify(s, proj(q, sc), false, q, z, r, t, "key not normalized");
			return;
		}
		case 8: {  // Off the curve
			CurvePoint c = key;
			Num x = num(c.x), y = num(c.y);
			switch (s.below(4)) {
				case 0: x = related(s, x) % P(); break;
				case 1: y = related(s, y) % P(); break;
				case 2: std::swap(x, y); break;
				default: x = field(s); y = field(s);
			}
			put(c.x.value, x);
			put(c.y.value, y);
			checkVerify(s, c, ref::onCurve(x, y), Pt{false, x, y}, z, r, t, "key off curve");
			return;
		}
		case 9: {  // Zero or degenerate key
			CurvePoint c = proj(ref::zero(), s.flag() ? Num(1) : scale(s));
			if (s.chance(1, 3)) put(c.y.value, 0);
			if (s.chance(1, 3)) put(c.x.value, num(key.x));
			if (s.chance(1, 3)) put(c.z.value, s.below(2));
			Num x = num(c.x), y = num(c.y);
			if (s.flag()) {  // The sum without the key's part
				Num u1 = scalar(s);
				r = ref::mul(ref::base(), u1).x % N();
				z = mulm(u1, t, N());
			}
			checkVerify(s, c, num(c.z) == 1 && ref::onCurve(x, y), Pt{false, x, y}, z, r, t, "degenerate key");
			return;
		}
		case 11: {
			CurvePoint c = foreignKey(s, z, r, t, what);
			s.label(what);
			checkVerify(s, c, num(c.z) == 1 && ref::onCurve(num(c.x), num(c.y)), Pt{false, num(c.x), num(c.y)}, z, r, t, what);
			return;
		}
		default: {
			Pt o = point(s, false);
			checkVerify(s, proj(o, 1), true, o, z, r, t, "other key");
		}
	}
}

PROPERTY(ecdsa_hmac) {
	Num d = scalar(s), z = anyHash(s);
	switch (s.weighted({6, 1, 1})) {
		case 0: break;
		case 1: d = 1 + (uniform(s) >> static_cast<unsigned>(8 * s.range(1, 30))) % (N() - 1); break;  // Leading zero bytes
		default: z = uniform(s) >> static_cast<unsigned>(8 * s.range(1, 30));
	}
	s.note("key=%s hash=%s", str(d).c_str(), str(z).c_str());
	s.nontrivial();
	Uint256 ud = U(d), r = U(u256(s)), t = U(u256(s));
	Sha256Hash h = H(z);
	bool ok = Ecdsa::signWithHmacNonce(ud, h, r, t);
	Bytes n = ref::hmac256(ref::toBE(d, 32), ref::toBE(z, 32));
	Num k = ref::fromBE(n.data(), 32);
	ref::Ecdsa e = ref::sign(d, z, k);
	REQUIRE(ok == e.ok, "signWithHmacNonce returned %d, expected %d", ok, e.ok);
	REQUIRE(num(ud) == d && ref::fromBE(h.value, 32) == z, "an input was modified");
	if (!e.ok) return;
	REQUIRE(num(r) == e.r && num(t) == e.s, "signature r=%s s=%s, expected r=%s s=%s", str(num(r)).c_str(), str(num(t)).c_str(), str(e.r).c_str(), str(e.s).c_str());
	Uint256 r2 = U(0), t2 = U(0);
	REQUIRE(Ecdsa::signWithHmacNonce(ud, h, r2, t2) && r2 == r && t2 == t, "second signature differs");
	Uint256 r3 = U(0), t3 = U(0), uk = U(k);
	REQUIRE(Ecdsa::sign(ud, h, uk, r3, t3) && r3 == r && t3 == t, "explicit signing with the HMAC nonce differs");
	CurvePoint q = CurvePoint::privateExponentToPublicPoint(ud);
	REQUIRE(Ecdsa::verify(q, h, r, t), "signature does not verify");
	switch (s.below(3)) {
		case 0: {
			Num z2 = z ^ (Num(1) << static_cast<unsigned>(s.below(256)));
			if (z2 % N() != z % N()) REQUIRE(Ecdsa::verify(q, H(z2), r, t) == ref::verify(ref::mul(ref::base(), d), z2, e.r, e.s), "verification with another hash is wrong");
			break;
		}
		case 1: {
			Pt o = point(s, false);
			REQUIRE(Ecdsa::verify(proj(o, 1), h, r, t) == ref::verify(o, z, e.r, e.s), "verification with another key is wrong");
			break;
		}
		default: break;
	}
}
