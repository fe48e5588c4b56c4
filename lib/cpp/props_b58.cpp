/* C18 Base58Check export, C19 Base58Check import, C21 BIP 32 derivation */
#include "gen.hpp"
#include "guard.hpp"
#include "inject.hpp"
#include "Base58Check.hpp"
#include "ExtendedPrivateKey.hpp"
#include <new>
using namespace gen;
using guard::Buf;
using ref::N;

static Bytes content(Src &s, size_t n) {
	Bytes b = bytes(s, n);
	if (s.chance(1, 3)) { size_t z = s.below(n + 1); for (size_t i = 0; i < z; i++) b[i] = 0; }  // Leading zeros
	return b;
}
static Num anyKey(Src &s) { return s.chance(1, 4) ? scalar(s) : s.chance(1, 4) ? Num(u256(s) >> static_cast<unsigned>(8 * s.below(32))) : u256(s); }
static uint8_t version(Src &s) {
	static const uint8_t T[] = {0, 0x80, 5, 0x6F, 0xEF, 0xFF, 1, 0xC4, 57, 58, 0x7F};
	uint8_t v;
	if (recall(s, v)) return v;
	return keep(s, s.flag() ? T[s.below(sizeof T)] : s.u8());
}
struct X { Num key; Bytes chain; uint8_t depth; uint32_t index; Bytes fp; };
static X ext(Src &s) {
	X x;
	if (recall(s, x)) {  // An earlier one, or with a field changed
		switch (s.below(8)) {
			case 0: x.key = scalar(s); break;
			case 1: x.chain = content(s, 32); break;
			case 2: x.depth = s.u8(); break;
			case 3: x.index = s.u32(); break;
			case 4: x.fp = content(s, 4); break;
			default: break;
		}
		return x;
	}
	x.key = scalar(s);
	x.chain = content(s, 32);
	x.depth = s.flag() ? static_cast<uint8_t>(s.below(3)) : s.u8();
	x.index = s.flag() ? word(s) : s.u32();
	x.fp = content(s, 4);
	return keep(s, x);
}
static std::string str(const X &x) {
	return "key=" + gen::str(x.key) + " chain=" + pbt::hex(x.chain.data(), 32) + " depth=" + std::to_string(x.depth) + " index=" + std::to_string(x.index) + " fp=" + pbt::hex(x.fp.data(), 4);
}
static Bytes layout(const X &x) {
	Bytes b = {0x04, 0x88, 0xAD, 0xE4, x.depth};
	b.insert(b.end(), x.fp.begin(), x.fp.end());
	Bytes i = ref::toBE(x.index, 4), k = ref::toBE(x.key, 32);
	b.insert(b.end(), i.begin(), i.end());
	b.insert(b.end(), x.chain.begin(), x.chain.end());
	b.push_back(0);
	b.insert(b.end(), k.begin(), k.end());
	return b;
}
static ExtendedPrivateKey make(const X &x) { return ExtendedPrivateKey(U(x.key), x.chain.data(), x.depth, x.index, x.fp.data()); }
static void checkExt(const ExtendedPrivateKey &k, const X &x, const char *what) {
	REQUIRE(num(k.privateKey) == x.key, "%s: private key is %s, expected %s", what, gen::str(num(k.privateKey)).c_str(), gen::str(x.key).c_str());
	REQUIRE(memcmp(k.chainCode, x.chain.data(), 32) == 0, "%s: chain code is %s, expected %s", what, pbt::hex(k.chainCode, 32).c_str(), pbt::hex(x.chain.data(), 32).c_str());
	REQUIRE(k.depth == x.depth, "%s: depth is %d, expected %d", what, k.depth, x.depth);
	REQUIRE(k.index == x.index, "%s: index is %u, expected %u", what, k.index, x.index);
	REQUIRE(memcmp(k.parentPubkeyHash, x.fp.data(), 4) == 0, "%s: parent fingerprint is %s, expected %s", what, pbt::hex(k.parentPubkeyHash, 4).c_str(), pbt::hex(x.fp.data(), 4).c_str());
	Pt q = ref::mul(ref::base(), x.key);
	REQUIRE(num(k.publicKey.x) == q.x && num(k.publicKey.y) == q.y && num(k.publicKey.z) == 1, "%s: public key is %s, expected %s", what, gen::str(k.publicKey).c_str(), gen::str(q).c_str());
}

static void outText(Buf &b, const std::string &exp, const char *what, size_t lo, size_t hi) {
	b.check(what);
	size_t l = strnlen(b.str(), b.n);
	REQUIRE(l < b.n, "%s: text is not terminated within its buffer", what);
	REQUIRE(exp == b.str(), "%s gave %s, expected %s", what, b.str(), exp.c_str());
	REQUIRE(l >= lo && l <= hi, "%s: text has %zu characters", what, l);
}

PROPERTY(b58_export) {
	size_t kind = s.weighted({3, 3, 2});
	s.nontrivial();
	if (kind == 0) {
		s.label("public key hash");
		Bytes h = content(s, 20);
		uint8_t v = version(s);
		s.note("hash=%s version=%d", pbt::hex(h.data(), 20).c_str(), v);
		Bytes p(1, v);
		p.insert(p.end(), h.begin(), h.end());
		Buf in(s, h.data(), 20), out(s, 36), back(s, 20);
		out.fill(s.u8());
		Base58Check::pubkeyHashToBase58Check(in.p, v, out.str());
		outText(out, ref::base58check(p), "public key hash export", 25, 35);
		REQUIRE(memcmp(in.p, h.data(), 20) == 0, "export modified its input");
		uint8_t v2 = static_cast<uint8_t>(~v);
		REQUIRE(Base58Check::pubkeyHashFromBase58Check(out.str(), back.p, &v2), "exported text %s is not accepted", out.str());
		REQUIRE(memcmp(back.p, h.data(), 20) == 0 && v2 == v, "exported text %s imports as another hash or version", out.str());
		back.check("import");
	} else if (kind == 1) {
		Num k = anyKey(s);
		uint8_t v = version(s);
		bool comp = s.flag();
		s.label(comp ? "private key, compressed" : "private key, uncompressed");
		s.note("key=%s version=%d compressed=%d", gen::str(k).c_str(), v, comp);
		Bytes p(1, v), kb = ref::toBE(k, 32);
		p.insert(p.end(), kb.begin(), kb.end());
		if (comp) p.push_back(1);
		Buf out(s, 53);
		out.fill(s.u8());
		Uint256 u = U(k);
		Base58Check::privateKeyToBase58Check(u, v, comp, out.str());
		outText(out, ref::base58check(p), "private key export", 38, 52);
		REQUIRE(num(u) == k, "export modified its input");
		Uint256 back = U(0);
		uint8_t v2 = static_cast<uint8_t>(~v);
		bool c2 = !comp;
		REQUIRE(Base58Check::privateKeyFromBase58Check(out.str(), back, &v2, &c2), "exported text %s is not accepted", out.str());
		REQUIRE(num(back) == k && v2 == v && c2 == comp, "exported text %s imports as another key, version or form", out.str());
	} else {
		s.label("extended private key");
		X x = ext(s);
		s.note("%s", str(x).c_str());
		ExtendedPrivateKey k = make(x);
		Buf out(s, 112);
		out.fill(s.u8());
		Base58Check::extendedPrivateKeyToBase58Check(k, out.str());
		outText(out, ref::base58check(layout(x)), "extended key export", 111, 111);
		checkExt(k, x, "after export");
		ExtendedPrivateKey back;
		REQUIRE(Base58Check::extendedPrivateKeyFromBase58Check(out.str(), back), "exported text %s is not accepted", out.str());
		checkExt(back, x, "imported again");
	}
}

static const char ALPHA[] = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
static char anyChar(Src &s) {
	static const char BAD[] = "0OIl +/-_.\n\t~\x7f\x01\x80\xff\xb1";
	switch (s.weighted({5, 3, 1})) {
		case 0: return ALPHA[s.below(58)];
		case 1: return BAD[s.below(sizeof BAD - 1)];
		default: { char c = static_cast<char>(1 + s.below(255)); return c; }
	}
}
static std::string mutate(Src &s, std::string t) {
	if (t.empty()) return t;
	size_t i = s.below(t.size());
	switch (s.weighted({6, 2, 2, 2, 2, 1, 1, 2})) {
		case 0: t[i] = ALPHA[s.below(58)]; break;
		case 1: t[i] = anyChar(s); break;
		case 2: t.erase(i, 1); break;
		case 3: t.insert(i, 1, anyChar(s)); break;
		case 4: t.insert(0, 1 + s.below(3), '1'); break;
		case 5: if (i + 1 < t.size()) std::swap(t[i], t[i + 1]); break;
		case 6: t += anyChar(s); break;
		default: if (t[0] == '1') t.erase(0, 1); else t[0] = '1'; break;
	}
	return t;
}

// Adds a multiple of 256^len to the number an encoding denotes: the low bytes and thus the checksum stay right
static std::string aliased(Src &s, const Bytes &full) {
	Num x = ref::fromBE(full.data(), full.size());
	unsigned bits = static_cast<unsigned>(8 * full.size());
	Num k;
	switch (s.below(4)) {
		case 0: k = 1 + s.below(57); break;
		case 3: x = s.below(62); k = 1; break;  // Just too large
		case 1: k = Num(1) << static_cast<unsigned>(s.below(40)); break;
		default: k = 1 + s.below(5000); break;
	}
	x += k << bits;
	std::string r;
	while (x != 0) { r.insert(0, 1, ALPHA[static_cast<unsigned>(x % 58)]); x /= 58; }
	return r;
}

PROPERTY(b58_import) {
	int kind = static_cast<int>(s.below(3));  // 0 address, 1 WIF, 2 xprv
	static const char *K[] = {"address", "private key", "extended key"};
	s.label(K[kind]);
	// A payload that is right or nearly right
	Bytes p;
	X x;
	size_t dev = s.weighted({7, 2, 3});  // Right kind; another kind or length; one field wrong
	bool comp = false;
	if (kind == 0) {
		p.push_back(version(s));
		Bytes h = content(s, 20);
		p.insert(p.end(), h.begin(), h.end());
	} else if (kind == 1) {
		p.push_back(version(s));
		Bytes h = ref::toBE(anyKey(s), 32);
		p.insert(p.end(), h.begin(), h.end());
		comp = s.flag();
		if (comp) p.push_back(1);
		if (dev == 2) { if (comp) p[33] = s.flag() ? static_cast<uint8_t>(s.below(4)) : s.u8(); else { p.push_back(s.flag() ? 0 : s.u8()); } s.label("marker deviates"); }
	} else {
		x = ext(s);
		p = layout(x);
		if (dev == 2) {
			Num k = x.key;
			switch (s.below(5)) {
				case 0: { size_t i = s.below(4); p[i] = static_cast<uint8_t>(p[i] ^ (s.flag() ? 1u << s.below(8) : 1 + s.below(255))); s.label("header deviates"); break; }
				case 1: p[45] = static_cast<uint8_t>(s.flag() ? 1u << s.below(8) : s.below(256)); s.label("prefix deviates"); break;
				case 2: k = N() + s.below(4); break;
				case 3: k = s.flag() ? Num(0) : Num(1); break;
				default: k = s.flag() ? Num(N() - 1 - s.below(3)) : u256(s);
			}
			if (k != x.key) { Bytes b = ref::toBE(k, 32); memcpy(&p[46], b.data(), 32); s.label("key range"); }
		}
	}
	if (dev == 1) {
		switch (s.below(6)) {
			case 0: p.push_back(s.u8()); break;
			case 1: p.pop_back(); break;
			case 2: p.insert(p.begin(), s.flag() ? 0 : s.u8()); break;
			case 3: p.erase(p.begin()); break;
			case 4: p = content(s, s.below(100)); break;
			default: { size_t lens[] = {21, 33, 34, 78, 0, 4, 20, 22, 32, 35, 77, 79}; p = content(s, lens[s.below(12)]); }
		}
		s.label("length deviates");
	}
	Bytes full = p, ck = ref::sha256d(p);
	full.insert(full.end(), ck.begin(), ck.begin() + 4);
	std::string t;
	switch (s.weighted({8, 2, 6, 2, 2, 1, 1})) {
		case 0: t = ref::base58(full); break;
		case 1: { size_t i = full.size() - 1 - s.below(4); full[i] = static_cast<uint8_t>(full[i] ^ (s.flag() ? 1u << s.below(8) : 1 + s.below(255))); t = ref::base58(full); s.label("checksum byte changed"); break; }
		case 2: { t = mutate(s, ref::base58(full)); if (s.chance(1, 4)) t = mutate(s, t); s.label("characters changed"); break; }
		case 3: t = aliased(s, full); s.label("same bytes plus overflow"); break;
		case 4: {  // Two compensating differences in payload bits
			if (!p.empty()) { size_t i = s.below(p.size()); full[i] = static_cast<uint8_t>(full[i] ^ (1u << s.below(8))); }
			t = ref::base58(full);
			s.label("payload bit changed");
			break;
		}
		case 5: { size_t n = s.flag() ? s.below(60) : s.below(130); for (size_t i = 0; i < n; i++) t += anyChar(s); s.label("random text"); break; }
		default: {
			size_t n = s.flag() ? s.below(40) : s.below(3000);
			t = std::string(n, s.flag() ? '1' : s.flag() ? 'z' : anyChar(s));
			if (s.flag()) t += ref::base58(full);
			s.label("runs and long text");
		}
	}
	if (!recallText(s, t)) keep(s, t);  // Perhaps as another kind
	else {  // Perhaps with another payload but the same checksum
		Bytes e;
		if (s.chance(1, 3) && ref::unbase58(t, e) && e.size() > 4) {
			size_t i = s.below(e.size() - 4);
			e[i] = static_cast<uint8_t>(e[i] ^ (1u << s.below(8)));
			t = ref::base58(e);
		}
	}
	s.note("%s from \"%s\" (%zu characters)", K[kind], t.substr(0, 140).c_str(), t.size());
	// What must happen
	Bytes d;
	bool valid = ref::unbase58(t, d) && d.size() >= 4;
	Bytes pay;
	if (valid) {
		pay.assign(d.begin(), d.end() - 4);
		Bytes c = ref::sha256d(pay);
		valid = memcmp(c.data(), &d[d.size() - 4], 4) == 0;
	}
	if (kind == 0) valid = valid && pay.size() == 21;
	else if (kind == 1) valid = valid && (pay.size() == 33 || (pay.size() == 34 && pay[33] == 1));
	else {
		valid = valid && pay.size() == 78 && pay[0] == 0x04 && pay[1] == 0x88 && pay[2] == 0xAD && pay[3] == 0xE4 && pay[45] == 0;
		if (valid) { Num k = ref::fromBE(&pay[46], 32); valid = k != 0 && k < N(); }
	}
	s.label(valid ? "accepted" : "rejected");
	s.nontrivial();
	Buf in(s, t.c_str(), t.size() + 1);
	if (kind == 0) {
		Buf out(s, 20);
		uint8_t v0 = s.u8(), v = v0, o0 = s.u8();
		out.fill(o0);
		bool nv = s.chance(1, 4);
		bool got = Base58Check::pubkeyHashFromBase58Check(in.str(), out.p, nv ? nullptr : &v);
		REQUIRE(got == valid, "import returned %d, expected %d", got, valid);
		out.check("import");
		if (valid) REQUIRE(memcmp(out.p, &pay[1], 20) == 0 && (nv || v == pay[0]), "imported %s version %d, expected %s version %d", pbt::hex(out.p, 20).c_str(), v, pbt::hex(&pay[1], 20).c_str(), pay[0]);
		else {
			bool same = v == v0;
			for (size_t i = 0; i < 20; i++) same &= out.p[i] == o0;
			REQUIRE(same, "rejected import changed an output");
		}
	} else if (kind == 1) {
		Num o0 = u256(s);
		Uint256 out = U(o0);
		uint8_t v0 = s.u8(), v = v0;
		bool c0 = s.flag(), c = c0, nv = s.chance(1, 4), nc = s.chance(1, 4);
		bool got = Base58Check::privateKeyFromBase58Check(in.str(), out, nv ? nullptr : &v, nc ? nullptr : &c);
		REQUIRE(got == valid, "import returned %d, expected %d", got, valid);
		if (valid) {
			REQUIRE(num(out) == ref::fromBE(&pay[1], 32), "imported key %s", gen::str(num(out)).c_str());
			REQUIRE(nv || v == pay[0], "imported version %d, expected %d", v, pay[0]);
			REQUIRE(nc || c == (pay.size() == 34), "imported compression flag %d is wrong", c);
		} else
			REQUIRE(num(out) == o0 && v == v0 && c == c0, "rejected import changed an output");
	} else {
		X y;
		y.key = 1 + s.below(7);
		y.chain = Bytes(32, s.u8());
		y.depth = s.u8();
		y.index = s.u32();
		y.fp = Bytes(4, s.u8());
		ExtendedPrivateKey out = make(y);
		unsigned char before[sizeof out];
		memcpy(before, static_cast<void *>(&out), sizeof out);
		bool got = Base58Check::extendedPrivateKeyFromBase58Check(in.str(), out);
		REQUIRE(got == valid, "import returned %d, expected %d", got, valid);
		if (valid) {
			X e;
			e.key = ref::fromBE(&pay[46], 32);
			e.chain.assign(&pay[13], &pay[45]);
			e.depth = pay[4];
			e.index = static_cast<uint32_t>(ref::fromBE(&pay[9], 4));
			e.fp.assign(&pay[5], &pay[9]);
			checkExt(out, e, "import");
		} else
			REQUIRE(memcmp(before, static_cast<void *>(&out), sizeof out) == 0, "rejected import changed the output key");
	}
	REQUIRE(memcmp(in.p, t.c_str(), t.size() + 1) == 0, "import modified the text");
}

// Every single-character substitution of a valid text
PROPERTY(b58_substitute) {
	int kind = static_cast<int>(s.below(2));
	Bytes p(1, version(s)), h = content(s, kind == 0 ? 20 : 32);
	p.insert(p.end(), h.begin(), h.end());
	if (kind == 1 && s.flag()) p.push_back(1);
	std::string t = ref::base58check(p);
	s.note("all substitutions in one position of %s", t.c_str());
	size_t i = s.below(t.size());
	char orig = t[i];
	Buf in(s, t.size() + 1);
	s.nontrivial();
	for (int c = 1; c < 256; c++) {
		t[i] = static_cast<char>(c);
		memcpy(in.p, t.c_str(), t.size() + 1);
		Bytes d;
		bool valid = ref::unbase58(t, d) && d.size() >= 4;
		if (valid) {
			Bytes ck = ref::sha256d(Bytes(d.begin(), d.end() - 4));
			valid = memcmp(ck.data(), &d[d.size() - 4], 4) == 0 && d.size() == p.size() + 4;
		}
		bool got;
		uint8_t v, o[20];
		Uint256 k;
		bool cc;
		if (kind == 0) got = Base58Check::pubkeyHashFromBase58Check(in.str(), o, &v);
		else got = Base58Check::privateKeyFromBase58Check(in.str(), k, &v, &cc);
		REQUIRE(got == valid, "position %zu changed from %c to byte %d: import returned %d", i, orig, c, got);
	}
}

static void checkBlank(const ExtendedPrivateKey &k) {
	static const uint8_t Z[32] = {0};
	REQUIRE(num(k.privateKey) == 0 && memcmp(k.chainCode, Z, 32) == 0 && k.depth == 0 && k.index == 0 && memcmp(k.parentPubkeyHash, Z, 4) == 0
		&& num(k.publicKey.x) == 0 && num(k.publicKey.y) == 1 && num(k.publicKey.z) == 0, "expected the blank key, got private key %s, depth %d, index %u, public key %s",
		gen::str(num(k.privateKey)).c_str(), k.depth, k.index, gen::str(k.publicKey).c_str());
}
static uint32_t childIndex(Src &s) {
	static const uint32_t T[] = {0, 1, 0x7FFFFFFFu, 0x80000000u, 0x80000001u, 0xFFFFFFFFu, 0x7FFFFFFEu, 0x8000002Cu, 255, 256, 65536};
	uint32_t i;
	if (recall(s, i)) return s.chance(1, 3) ? i ^ UINT32_C(1) << s.below(32) : i;
	return keep(s, s.flag() ? T[s.below(sizeof T / sizeof T[0])] : s.u32());
}
static ref::ExtKey model(const X &x) { return ref::ExtKey{x.key, x.chain, x.depth, x.index, x.fp}; }

PROPERTY(bip32_child) {
	X x = ext(s);
	if (x.depth > 250) x.depth = static_cast<uint8_t>(x.depth - 10);
	if (s.chance(1, 4)) x.key = 1 + (uniform(s) >> static_cast<unsigned>(8 * s.range(1, 31))) % (N() - 1);  // Leading zero bytes
	s.note("parent %s", str(x).c_str());
	ExtendedPrivateKey k = make(x);
	size_t steps = s.range(1, 3);
	for (size_t i = 0; i < steps; i++) {
		uint32_t idx = childIndex(s);
		s.note("child %u", idx);
		s.label(idx >> 31 ? "hardened" : "normal");
		s.nontrivial();
		Pt pub = ref::mul(ref::base(), x.key);
		ref::ExtKey m = model(x);
		ref::ExtChild e = ref::childFrom(m, pub, idx, ref::hmac512(x.chain, ref::childMsg(m, pub, idx)));
		ExtendedPrivateKey c = k.getChildKey(idx);
		checkExt(k, x, "parent after derivation");
		if (e.blank) { checkBlank(c); return; }
		x = X{e.k.key, e.k.chain, static_cast<uint8_t>(e.k.depth), e.k.index, e.k.fp};
		checkExt(c, x, "child");
		k = c;
	}
}

PROPERTY(bip32_inject) {
	X x = ext(s);
	if (x.depth == 255) x.depth = 254;
	uint32_t idx = childIndex(s);
	Num il;
	switch (s.weighted({3, 3, 2, 2, 2})) {
		case 0: il = N() + s.below(5); break;
		case 1: il = N() - x.key; if (s.flag()) il = il + s.below(3) + N() - 1; il = il % N(); break;
		case 2: { Num v[] = {0, N() - 1, 1, ref::TWO256() - 1}; il = v[s.below(4)]; break; }
		case 3: il = ref::TWO256() - x.key + s.below(3); il = (il - 1) % ref::TWO256(); break;
		default: il = u256(s);
	}
	Bytes I = ref::toBE(il, 32), r = content(s, 32);
	I.insert(I.end(), r.begin(), r.end());
	s.note("parent %s child %u with injected I=%s", str(x).c_str(), idx, pbt::hex(I.data(), 64).c_str());
	ExtendedPrivateKey k = make(x);
	memcpy(inject::out, I.data(), 64);
	inject::used = false;
	inject::active = true;
	ExtendedPrivateKey c = k.getChildKey(idx);
	inject::active = false;
	checkExt(k, x, "parent after derivation");
	Pt pub = ref::mul(ref::base(), x.key);
	ref::ExtKey m = model(x);
	if (!inject::used) { s.label("injection not reached"); I = ref::hmac512(x.chain, ref::childMsg(m, pub, idx)); }
	else s.nontrivial();
	ref::ExtChild e = ref::childFrom(m, pub, idx, I);
	s.label(e.blank ? il >= N() ? "blank: left half not below n" : "blank: child key zero" : "valid child");
	if (e.blank) checkBlank(c);
	else checkExt(c, X{e.k.key, e.k.chain, static_cast<uint8_t>(e.k.depth), e.k.index, e.k.fp}, "child");
}
