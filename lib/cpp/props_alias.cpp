/* C36: one object for two operands gives what two equal objects give */
#include "gen.hpp"
#include "Base58Check.hpp"
#include "Ecdsa.hpp"
#include "ExtendedPrivateKey.hpp"
#include "Keccak256.hpp"
#include "Ripemd160.hpp"
#include "Sha256.hpp"
#include "Sha512.hpp"
using namespace gen;
using ref::P;
using ref::N;
using ref::mulm;
using ref::invm;
using ref::subm;

template <typename T> static void compareSelf(const T &a, const T &b, const char *kind) {
	int x = (a == a) | (a != a) << 1 | (a < a) << 2 | (a <= a) << 3 | (a > a) << 4 | (a >= a) << 5;
	int y = (a == b) | (a != b) << 1 | (a < b) << 2 | (a <= b) << 3 | (a > b) << 4 | (a >= b) << 5;
	REQUIRE(x == y, "comparing a %s with itself gives %02x, with an equal one %02x", kind, x, y);
}

static void arithmetic(Src &s) {
	uint32_t en = static_cast<uint32_t>(s.below(2));
	if (s.flag()) {
		Num a = u256(s);
		Uint256 x = U(a), y = U(a), z = U(a);
		s.note("Uint256 %s, enable %u", str(a).c_str(), en);
		if (s.flag()) { s.label("Uint256::replace"); x.replace(x, en); }
		else { s.label("Uint256::swap"); x.swap(x, en); y.swap(z, en); }
		REQUIRE(num(x) == a && num(y) == a, "with itself gives %s", str(num(x)).c_str());
		compareSelf(x, y, "Uint256");
	} else {
		Num a = s.flag() ? field(s) : sparse(s), b;
		if (s.flag()) boundaryPair(s, a, b);
		a %= P();
		FieldInt x = F(a), y = F(a), z = F(a);
		s.note("FieldInt %s, enable %u", str(a).c_str(), en);
		if (s.flag()) { s.label("FieldInt::replace"); x.replace(x, en); }
		else {
			s.label("FieldInt::multiply");
			x.multiply(x);
			y.multiply(z);
		}
		REQUIRE(num(x) == num(y), "with itself gives %s, with an equal one %s", str(num(x)).c_str(), str(num(y)).c_str());
		compareSelf(x, y, "FieldInt");
	}
}

static void points(Src &s) {
	Pt a = point(s, true);
	CurvePoint p = proj(a, s.flag() ? scale(s) : scaleForTwice(s, a)), q = p, r = p;
	s.note("point %s", str(p).c_str());
	s.label(a.inf ? "CurvePoint, zero" : "CurvePoint");
	uint32_t en = static_cast<uint32_t>(s.below(2));
	switch (s.weighted({4, 1, 1})) {
		case 0: {
			p.add(p);
			q.add(r);
			Pt x = toPt(p, "add"), y = toPt(q, "add"), z = ref::add(a, a);
			auto same = [](const Pt &u, const Pt &v) { return u.inf == v.inf && (u.inf || (u.x == v.x && u.y == v.y)); };
			REQUIRE(same(x, y) && same(x, z), "adding a point to itself gives %s, to an equal one %s", str(x).c_str(), str(y).c_str());
			break;
		}
		case 1: p.replace(p, en); REQUIRE(str(p) == str(q), "replace(%u) by itself changes a point to %s", en, str(p).c_str()); break;
		default: REQUIRE((p == p) == (p == q) && (p != p) == (p != q), "a point and itself compare %d %d", p == p, p != p);
	}
}

// Signing with outputs that are inputs
static void signing(Src &s) {
	Num d, z, k;
	signInputs(s, d, z, k);
	bool hmac = s.chance(1, 3);
	if (!hmac) switch (s.below(6)) {
		case 0: k = s.flag() ? Num(0) : Num(N() + s.below(5)); break;  // Refused
		case 1: {
			Num r = ref::mul(ref::base(), k).x % N();
			d = mulm(subm(0, z % N(), N()), invm(r, N()), N());
			if (d == 0) d = 1;
			break;
		}
		case 2: k = d; break;
	}
	if (hmac) {
		Bytes b = ref::hmac256(ref::toBE(d, 32), ref::toBE(z, 32));
		k = ref::fromBE(b.data(), 32);
	}
	Sha256Hash h = H(z);
	Num r0 = u256(s), s0 = u256(s);
	Uint256 key = U(d), nonce = U(k), r = U(r0), t = U(s0);
	Uint256 *nk = &nonce, *pr = &r, *ps = &t;
	static const char *const NAMES[] = {"itself", "the key", "the nonce"};
	size_t ar, as;
	if (!hmac && k == d && s.flag()) { nk = &key; s.label("key and nonce are one object"); }
	do { ar = s.below(hmac ? 2 : 3); as = s.below(hmac ? 2 : 3); } while (ar == as && ar != 0 && s.pos < 4000);
	if (ar == as) as = 0;
	if (ar == 1) pr = &key; else if (ar == 2) pr = nk;
	if (as == 1) ps = &key; else if (as == 2) ps = nk;
	if (pr == ps) { ps = &t; as = 0; }
	s.note("key=%s hash=%s nonce=%s; r is put in %s, s in %s", str(d).c_str(), str(z).c_str(), str(k).c_str(), NAMES[ar], NAMES[as]);
	s.label(hmac ? "signWithHmacNonce" : "sign");
	ref::Ecdsa e = ref::sign(d, z, k);
	bool ok = hmac ? Ecdsa::signWithHmacNonce(key, h, *pr, *ps) : Ecdsa::sign(key, h, *nk, *pr, *ps);
	REQUIRE(ok == e.ok, "signing returned %d, expected %d", ok, e.ok);
	if (e.ok) REQUIRE(num(*pr) == e.r && num(*ps) == e.s, "signing gave r=%s s=%s, expected r=%s s=%s", str(num(*pr)).c_str(), str(num(*ps)).c_str(), str(e.r).c_str(), str(e.s).c_str());
	if (!ok || (pr != &key && ps != &key)) REQUIRE(num(key) == d, "signing changed the key");
	if (nk == &nonce && (!ok || (pr != &nonce && ps != &nonce))) REQUIRE(num(nonce) == k, "signing changed the nonce");
	if (!ok || pr != &r) REQUIRE(num(r) == r0, "signing changed another object");
	if (!ok || ps != &t) REQUIRE(num(t) == s0, "signing changed another object");
}

// Verification of a signature whose r and s are equal, and are one object
static void verifying(Src &s) {
	Num k = scalar(s), z = anyHash(s), r = ref::mul(ref::base(), k).x % N();
	if (r == 0) r = 1;
	Num d = mulm(subm(mulm(k, r, N()), z % N(), N()), invm(r, N()), N());  // s = r
	if (d == 0) d = 1;
	if (s.chance(1, 4)) r = s.flag() ? Num(0) : u256(s);
	if (s.chance(1, 8)) z = anyHash(s);
	Pt q = ref::mul(ref::base(), d);
	s.note("key %s, hash %s, r = s = %s", str(q).c_str(), str(z).c_str(), str(r).c_str());
	CurvePoint c = proj(q, 1);
	Sha256Hash h = H(z);
	Uint256 x = U(r);
	bool exp = ref::verify(q, z, r, r), got = Ecdsa::verify(c, h, x, x);
	s.label(exp ? "verify: accepted" : "verify: rejected");
	REQUIRE(got == exp, "verify with r and s in one object gives %d, expected %d", got, exp);
	REQUIRE(num(x) == r, "verify changed r");
}

// The result of a hash overlaps what is hashed; an HMAC's key and message overlap
static void hashing(Src &s) {
	size_t which = s.below(5), block = which == 0 ? 64 : which == 1 ? 136 : which == 3 ? 64 : 128;
	size_t out = which == 0 ? 20 : which == 1 ? 32 : which == 3 ? 0 : 64;
	Bytes buf = bytes(s, msgLen(s, block, 700) + 64 + s.below(70));
	auto region = [&](size_t &off, size_t &len) { off = s.below(buf.size()); len = s.flag() ? buf.size() - off : s.below(buf.size() - off + 1); if (len > buf.size() - off) len = buf.size() - off; };
	size_t mo = 0, ml = 0, ko = 0, kl = 0, ro = s.below(buf.size() - out + 1);
	region(mo, ml);
	region(ko, kl);
	if (s.chance(1, 4)) { ko = mo; kl = s.flag() ? ml : kl < buf.size() - ko ? kl : buf.size() - ko; }
	if (s.chance(1, 3)) { ro = mo; if (ro > buf.size() - out) ro = buf.size() - out; }
	else if (s.chance(1, 3)) { ro = ko; if (ro > buf.size() - out) ro = buf.size() - out; }
	static const char *const NAMES[] = {"RIPEMD-160", "Keccak-256", "SHA-512", "HMAC-SHA-256", "HMAC-SHA-512"};
	s.note("%s of %zu bytes at %zu, key %zu bytes at %zu, result at %zu, of %s", NAMES[which], ml, mo, kl, ko, ro, pbt::hex(buf.data(), buf.size()).c_str());
	s.label(NAMES[which]);
	Bytes m(buf.begin() + static_cast<long>(mo), buf.begin() + static_cast<long>(mo + ml)), k(buf.begin() + static_cast<long>(ko), buf.begin() + static_cast<long>(ko + kl)), exp, copy = buf;
	uint8_t *b = buf.data();
	switch (which) {
		case 0: exp = ref::ripemd160(m.data(), m.size()); Ripemd160::getHash(b + mo, ml, b + ro); break;
		case 1: exp = ref::keccak256(m.data(), m.size()); Keccak256::getHash(b + mo, ml, b + ro); break;
		case 2: exp = ref::sha512(m.data(), m.size()); Sha512::getHash(b + mo, ml, b + ro); break;
		case 3: {
			Sha256Hash h = Sha256::getHmac(b + ko, kl, b + mo, ml);
			exp = ref::hmac256(k, m);
			REQUIRE(!memcmp(h.value, exp.data(), 32), "the HMAC is %s, expected %s", pbt::hex(h.value, 32).c_str(), pbt::hex(exp.data(), 32).c_str());
			exp.clear();
			break;
		}
		default: exp = ref::hmac512(k, m); Sha512::getHmac(b + ko, kl, b + mo, ml, b + ro);
	}
	REQUIRE(std::equal(exp.begin(), exp.end(), b + ro), "the result is %s, expected %s", pbt::hex(b + ro, exp.size()).c_str(), pbt::hex(exp.data(), exp.size()).c_str());
	for (size_t i = 0; i < buf.size(); i++)
		REQUIRE(buf[i] == copy[i] || (i >= ro && i < ro + exp.size()), "byte %zu, outside the result, was changed", i);
}

// Assignments from results computed from the object itself, and results put where the argument came from
static void values(Src &s) {
	switch (s.below(3)) {
		case 0: {
			s.label("child key");
			Num d = scalar(s);
			Bytes c = bytes(s, 32), h = bytes(s, 4);
			ExtendedPrivateKey k(U(d), c.data(), 3, 5, h.data()), k2 = k;
			uint32_t i = word(s);
			s.note("key %s, child %u", str(d).c_str(), i);
			ExtendedPrivateKey e(U(1), c.data(), 0, 0, h.data());
			e = k2.getChildKey(i);
			k = k.getChildKey(i);
			REQUIRE(num(k.privateKey) == num(e.privateKey) && !memcmp(k.chainCode, e.chainCode, 32) && k.depth == e.depth && k.index == e.index && !memcmp(k.parentPubkeyHash, e.parentPubkeyHash, 4), "a key replaced by its child is another one");
			const ExtendedPrivateKey &self = k;
			k = self;
			REQUIRE(num(k.privateKey) == num(e.privateKey) && !memcmp(k.chainCode, e.chainCode, 32) && k.depth == e.depth && k.index == e.index && !memcmp(k.parentPubkeyHash, e.parentPubkeyHash, 4), "a key assigned to itself changed");
			break;
		}
		case 1: {
			s.label("hash of a hash");
			Bytes b = bytes(s, 32);
			s.note("hash %s", pbt::hex(b.data(), 32).c_str());
			Sha256Hash h(b.data(), 32);
			REQUIRE(h == h && !(h != h), "a hash is not equal to itself");
			size_t kl = s.below(33), ml = s.below(33);
			Bytes e = ref::hmac256(Bytes(h.value, h.value + kl), Bytes(h.value, h.value + ml));
			h = Sha256::getHmac(h.value, kl, h.value, ml);
			REQUIRE(!memcmp(h.value, e.data(), 32), "a hash replaced by its own HMAC is wrong");
			e = ref::sha256(h.value, 32);
			h = Sha256::getHash(h.value, 32);
			REQUIRE(!memcmp(h.value, e.data(), 32), "a hash replaced by its own hash is wrong");
			break;
		}
		default: {
			s.label("swapped coordinates");
			Pt a = point(s, false);
			CurvePoint p = proj(a, 1);
			s.note("point %s", str(p).c_str());
			p = CurvePoint(p.y, p.x);
			REQUIRE(num(p.x) == a.y && num(p.y) == a.x && num(p.z) == 1, "CurvePoint(p.y, p.x) assigned to p is wrong");
		}
	}
}

PROPERTY(alias_cheap) {
	s.nontrivial();
	switch (s.weighted({3, 3, 4})) {
		case 0: arithmetic(s); break;
		case 1: points(s); break;
		default: hashing(s);
	}
}
PROPERTY(alias_ecdsa) {
	s.nontrivial();
	switch (s.weighted({4, 2, 1})) {
		case 0: signing(s); break;
		case 1: verifying(s); break;
		default: values(s);
	}
}
