#include "opgen.hpp"
#include "ExtendedPrivateKey.hpp"
#include <cstddef>
using namespace gen;
using namespace ops;
using ref::P;
using ref::N;

namespace opgen {

static const char ALPHA[] = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";

static Bytes rawU(const Num &x) { Uint256 u = U(x); const uint8_t *p = reinterpret_cast<const uint8_t *>(u.value); return Bytes(p, p + 32); }
static Num numU(const Bytes &b) { Uint256 u = U(0); memcpy(u.value, b.data(), 32); return num(u); }
static Bytes rawP(const CurvePoint &c) { const uint8_t *p = reinterpret_cast<const uint8_t *>(&c); return Bytes(p, p + sizeof c); }
static Bytes cstr(const std::string &t) { return Bytes(t.c_str(), t.c_str() + t.size() + 1); }

// The object's bytes, with zero padding
static Bytes packX(const ExtendedPrivateKey &x) {
	Bytes r(sizeof x);
	memcpy(r.data(), static_cast<const void *>(&x), sizeof x);
	for (size_t i = offsetof(ExtendedPrivateKey, depth) + 1; i < offsetof(ExtendedPrivateKey, index); i++) r[i] = 0;
	return r;
}
static Bytes rawX(Src &s, bool cheap) {
	Num k = cheap ? Num(1 + s.below(5)) : scalar(s);
	if (cheap) {
		static std::vector<Pt> small;
		while (small.size() < 6) small.push_back(ref::mul(ref::base(), small.size()));
		ExtendedPrivateKey x;
		x.privateKey = U(k);
		x.publicKey = proj(small[static_cast<size_t>(k)], 1);
		Bytes c = bytes(s, 32), f = bytes(s, 4);
		memcpy(x.chainCode, c.data(), 32);
		memcpy(x.parentPubkeyHash, f.data(), 4);
		x.depth = static_cast<uint8_t>(s.below(255));
		x.index = s.u32();
		return packX(x);
	}
	Bytes c = bytes(s, 32), f = bytes(s, 4);
	ExtendedPrivateKey x;
	x.privateKey = U(k);
	x.publicKey = proj(ref::mul(ref::base(), k), 1);
	memcpy(x.chainCode, c.data(), 32);
	memcpy(x.parentPubkeyHash, f.data(), 4);
	x.depth = static_cast<uint8_t>(s.below(255));
	x.index = s.flag() ? word(s) : s.u32();
	return packX(x);
}

static std::string hexText(Src &s, const Num &x) {
	std::string t = ref::hexNum(x);
	if (t.size() > 64) t = t.substr(t.size() - 64);
	t = std::string(64 - t.size(), '0') + t;
	unsigned how = static_cast<unsigned>(s.below(3));
	for (size_t i = 0; i < t.size(); i++) {
		char c = t[i];
		bool up = how == 1 || (how == 2 && (i * 7 + t[(i * 5) % 64]) % 3 == 0);
		if (c >= 'a' && c <= 'f' && up) c = static_cast<char>(c - 32);
		else if (c >= 'A' && c <= 'F' && !up) c = static_cast<char>(c + 32);
		t[i] = c;
	}
	return t;
}

// Text to import: right, nearly right or anything
static std::string importText(Src &s, int op) {
	Bytes p;
	if (op == IMPORT_HASH) p = bytes(s, 21);
	else if (op == IMPORT_KEY) { p = bytes(s, s.flag() ? 33 : 34); if (p.size() == 34 && !s.chance(1, 5)) p[33] = 1; }
	else {
		p = bytes(s, 78);
		if (!s.chance(1, 6)) { p[0] = 4; p[1] = 0x88; p[2] = 0xAD; p[3] = 0xE4; }
		if (!s.chance(1, 6)) p[45] = 0;
		Num k = s.chance(1, 6) ? u256(s) : s.chance(1, 3) ? scalar(s) : Num(1 + s.below(9));
		Bytes b = ref::toBE(k, 32);
		memcpy(&p[46], b.data(), 32);
	}
	if (s.chance(1, 4)) { size_t z = s.below(p.size()); for (size_t i = 0; i < z && (op != IMPORT_XKEY || i < 1); i++) p[i] = 0; }
	if (s.chance(1, 8)) p.resize(s.below(100));
	std::string t = ref::base58check(p);
	switch (s.weighted({6, 2, 2, 1, 1})) {
		case 0: break;
		case 1: if (!t.empty()) t[s.below(t.size())] = ALPHA[s.below(58)]; break;
		case 2: {
			size_t n = 1 + s.below(4);
			for (size_t i = 0; i < n; i++) {
				size_t at = s.below(t.size() + 1);
				switch (s.below(4)) {
					case 0: t.insert(at, 1, static_cast<char>(1 + s.below(255))); break;
					case 1: if (at < t.size()) t.erase(at, 1); break;
					case 2: t.insert(0, 1, '1'); break;
					default: t.insert(at, 1, ALPHA[s.below(58)]);
				}
			}
			break;
		}
		case 3: { size_t n = s.below(150); t.clear(); for (size_t i = 0; i < n; i++) t += s.chance(1, 12) ? static_cast<char>(1 + s.below(255)) : ALPHA[s.below(58)]; break; }
		default: t = std::string(s.below(300), s.flag() ? '1' : 'z') + (s.flag() ? t : "");
	}
	return t;
}


Call call(Src &s, int op) {
	Call c;
	c.op = op;
	const Def &d = def(op);
	// By default, every operand is of its kind; outputs hold whatever was there
	for (int i = 0; i < 5 && d.slot[i].kind != NONE; i++) {
		size_t n = kindSize(d.slot[i].kind);
		c.data[i] = d.slot[i].mode == OUT || d.slot[i].mode == SCRATCH ? Bytes(n, s.chance(1, 2) ? s.u8() : 0) : Bytes();
	}
	c.arg = s.flag();
	auto setU = [&](int i, const Num &x) { c.data[i] = rawU(x); };
	switch (op) {
		case U_ADD: case U_SUB: case U_ADD1: case U_SUB1: case U_SHL: case U_SHR: case U_REPLACE: case U_SWAP:
		case U_EQ: case U_NE: case U_LT: case U_LE: case U_GT: case U_GE: {
			Num a = u256(s);
			setU(0, a);
			if (d.slot[1].kind != NONE) setU(1, related(s, a));
			break;
		}
		case U_BYTES: setU(0, u256(s)); break;
		case U_FROMBYTES: case H_FROMBYTES: c.data[1] = ref::toBE(u256(s), 32); break;
		case U_FROMFIELD: setU(1, field(s)); break;
		case U_FROMSTR: case H_FROMSTR: c.data[1] = cstr(hexText(s, u256(s))); break;
		case F_FROMSTR: c.data[1] = cstr(hexText(s, field(s))); break;
		case F_FROMUINT: setU(1, u256(s)); break;
		case H_EQ: case H_NE: { Num a = u256(s); c.data[0] = ref::toBE(a, 32); c.data[1] = ref::toBE(related(s, a), 32); break; }
		case F_ADD: case F_SUB: case F_MUL2: case F_MUL: case F_SQR: case F_MULSELF: case F_REPLACE: case F_BYTES: case F_RECIP:
		case F_EQ: case F_NE: case F_LT: case F_LE: case F_GT: case F_GE: {
			Num a = field(s), b = s.chance(1, 3) ? related(s, a) % P() : s.chance(1, 4) ? Num((P() - a) % P()) : field(s);
			if (op == F_MUL && s.flag()) boundaryPair(s, a, b);
			setU(0, a);
			if (d.slot[1].kind == KF) setU(1, b);
			break;
		}
		case P_NEW: { Pt a = point(s, false); setU(1, s.flag() ? a.x : field(s)); setU(2, s.flag() ? a.y : field(s)); break; }
		case P_FROMSTR: { Pt a = point(s, false); c.data[1] = cstr(hexText(s, a.x)); c.data[2] = cstr(hexText(s, s.flag() ? a.y : field(s))); break; }
		case P_ADD: case P_TWICE: case P_REPLACE: case P_ISZERO: case P_ONCURVE: case P_EQ: case P_NE: case P_COMPRESS: case P_NORM: case P_MUL: {
			bool norm = op == P_COMPRESS || op == P_ONCURVE;
			Pt a = point(s, true), b = s.chance(1, 3) ? a : s.chance(1, 3) ? ref::neg(a) : point(s, true);
			CurvePoint ca = proj(a, norm ? Num(1) : scale(s)), cb = proj(b, s.flag() ? Num(1) : scale(s));
			if (op == P_ONCURVE && s.chance(1, 4)) put(s.flag() ? ca.x.value : ca.y.value, field(s));
			if ((op == P_EQ || op == P_NE) && s.flag()) {
				cb = ca;
				if (s.flag()) { uint32_t *w = s.below(3) == 0 ? cb.x.value : s.flag() ? cb.y.value : cb.z.value; put(w, related(s, get(w)) % P()); }
			}
			c.data[0] = rawP(ca);
			if (op == P_MUL) setU(1, anyScalar(s));
			else if (d.slot[1].kind == KP) c.data[1] = rawP(cb);
			break;
		}
		case SHA256: case SHA256D: case RIPEMD: c.data[1] = bytes(s, msgLen(s, 64, 1500)); break;
		case SHA512: c.data[1] = bytes(s, msgLen(s, 128, 1500)); break;
		case KECCAK: c.data[1] = bytes(s, msgLen(s, 136, 1500)); break;
		case SHA256_COMPRESS: c.data[0] = bytes(s, 32); c.data[1] = bytes(s, 64); break;
		case SHA256_STREAM: case SHA512_STREAM: {
			size_t block = op == SHA256_STREAM ? 64 : 128;
			size_t k = s.below(7), total = 0;
			Bytes p;
			for (size_t i = 0; i < k; i++) {
				size_t n = s.flag() ? s.below(block + 2) : msgLen(s, block, 700);
				total += n;
				p.push_back(static_cast<uint8_t>(n));
				p.push_back(static_cast<uint8_t>(n >> 8));
			}
			c.data[1] = bytes(s, total + (s.flag() ? s.below(2 * block) : 0));
			c.data[2] = p;
			break;
		}
		case HMAC256: case HMAC512: {
			size_t block = op == HMAC256 ? 64 : 128;
			c.data[1] = bytes(s, s.flag() ? block + s.below(5) - 2 : s.below(2 * block + 9));
			c.data[2] = bytes(s, msgLen(s, block, 700));
			break;
		}
		case EXPORT_HASH: c.data[1] = bytes(s, 20); if (s.flag()) std::fill(c.data[1].begin(), c.data[1].begin() + static_cast<long>(s.below(21)), 0); c.arg = s.flag() ? 0 : s.u8(); break;
		case EXPORT_KEY: setU(1, u256(s)); c.arg = s.below(512); break;
		case EXPORT_XKEY: c.data[1] = rawX(s, true); break;
		case IMPORT_HASH: c.data[0] = bytes(s, 20); c.data[1] = cstr(importText(s, op)); c.data[2] = bytes(s, 1); break;
		case IMPORT_KEY: setU(0, u256(s)); c.data[1] = cstr(importText(s, op)); c.data[2] = bytes(s, 1); c.data[3] = Bytes(1, s.flag()); c.arg = s.flag() ? 0 : s.below(4); break;
		case IMPORT_XKEY: c.data[0] = rawX(s, true); c.data[1] = cstr(importText(s, op)); break;
		case UTIL_HEX: c.arg = static_cast<uint32_t>(static_cast<int32_t>(s.below(257)) - 1); break;
		case UTIL_STORE: c.arg = word(s); break;
		case UTIL_COPY: {
			size_t n = s.below(200);
			c.data[0] = bytes(s, n);
			size_t k = s.below(n + 1), a = s.below(n - k + 1), b = s.below(n - k + 1);
			c.arg = a | static_cast<uint64_t>(b) << 20 | static_cast<uint64_t>(k) << 40;
			break;
		}
		case U_RECIP: {
			Num m = s.flag() ? N() : s.flag() ? P() : Num(u256(s) | 1);
			if (m < 3) m = 3;
			Num x = below(s, m);
			for (int i = 0; x != 0 && ref::gcd(x, m) != 1; i++) x = i > 60 ? Num(1) : Num((x + 1) % m);
			setU(0, x);
			setU(1, m);
			break;
		}
		case P_PUB: setU(1, scalar(s)); break;
		case SIGN: case SIGN_HMAC: {
			Num k, z, n;
			signInputs(s, k, z, n);
			setU(0, u256(s));
			setU(1, u256(s));
			setU(2, k);
			c.data[3] = ref::toBE(z, 32);
			if (op == SIGN) {
				if (s.chance(1, 6)) n = s.flag() ? Num(0) : Num(N() + s.below(3));
				setU(4, n);
			}
			break;
		}
		case VERIFY: {
			Num d0 = 1 + s.below(30), z = anyHash(s), n = scalar(s);
			Pt q = ref::mul(ref::base(), d0);
			ref::Ecdsa e{false, 1, 1};
			if (s.chance(3, 4)) e = ref::sign(d0, z, n);
			if (!e.ok) { e.r = s.chance(1, 3) ? Num(0) : u256(s); e.s = s.chance(1, 3) ? Num(0) : u256(s); }
			if (s.chance(1, 8)) e.s = N() - e.s % N();
			CurvePoint k = proj(q, 1);
			if (s.chance(1, 8)) k = proj(q, scale(s));
			else if (s.chance(1, 8)) put(k.y.value, field(s));
			if (s.chance(1, 8)) z ^= Num(1) << static_cast<unsigned>(s.below(256));
			c.data[0] = rawP(k);
			c.data[1] = ref::toBE(z, 32);
			setU(2, e.r);
			setU(3, e.s);
			break;
		}
		case XKEY_NEW: setU(1, scalar(s)); c.data[2] = bytes(s, 32); c.data[3] = bytes(s, 4); c.arg = s.below(UINT64_C(1) << 40); break;
		case XKEY_CHILD: c.data[1] = rawX(s, s.chance(3, 4)); c.arg = s.flag() ? word(s) : s.u32(); break;
		default: abort();
	}
	// Inputs of the same kind and content may be one object
	for (int i = 1; i < 5 && d.slot[i].kind != NONE; i++)
		for (int j = 0; j < i; j++)
			if (d.slot[i].mode == IN && d.slot[j].mode == IN && d.slot[i].kind == d.slot[j].kind && s.chance(1, 12)) {
				if (op == U_RECIP || (op == SIGN && i == 4)) continue;
				c.data[i] = c.data[j];
				c.same[i] = true;
				break;
			}
	return c;
}

int anyOp(Src &s, unsigned slow) {
	if (slow && s.below(100) < slow) return s.chance(1, 3) ? static_cast<int>(s.range(FAST_END, MID_END - 1)) : static_cast<int>(s.range(MID_END, OP_END - 1));
	return static_cast<int>(s.below(FAST_END));
}

static void flip(Src &s, Bytes &b) {
	if (b.empty()) return;
	switch (s.below(4)) {
		case 0: b[s.below(b.size())] ^= static_cast<uint8_t>(1u << s.below(8)); break;
		case 1: b[b.size() - 1] ^= 1; break;
		case 2: b[0] ^= static_cast<uint8_t>(1u << s.below(8)); break;
		default: for (size_t i = s.below(b.size()); i < b.size(); i++) b[i] = static_cast<uint8_t>(b[i] * 5 + 7);
	}
}

Call variation(Src &s, const Call &old) {
	Call c = old;
	const Def &d = def(c.op);
	int n = 0;
	while (n < 5 && d.slot[n].kind != NONE) n++;
	for (bool &b : c.same) b = false;
	if (n == 0 || s.chance(1, 8)) { Call t = call(s, c.op); c.arg = t.arg; if (c.op == UTIL_COPY) return t; return c; }
	int i = static_cast<int>(s.below(static_cast<uint64_t>(n)));
	for (int t = 0; t < n && (d.slot[i].mode == OUT || d.slot[i].mode == SCRATCH); t++) i = (i + 1) % n;
	switch (d.slot[i].kind) {
		case KU: {
			Num x = numU(c.data[i]);
			switch (s.below(3)) {
				case 0: x ^= Num(1) << static_cast<unsigned>(s.below(256)); break;
				case 1: x = (x + 1) % ref::TWO256(); break;
				default: { unsigned k = static_cast<unsigned>(s.below(256)); x = ((x >> k) << k) | (uniform(s) & ((Num(1) << k) - 1)); }
			}
			if (c.op == U_RECIP) return call(s, c.op);
			if (c.op == P_PUB || c.op == XKEY_NEW || ((c.op == SIGN || c.op == SIGN_HMAC) && i == 2)) { x %= N(); if (x == 0) x = 1; }
			c.data[i] = rawU(x);
			break;
		}
		case KF: {
			Num x = numU(c.data[i]);
			x = (s.flag() ? Num(x ^ (Num(1) << static_cast<unsigned>(s.below(256)))) : Num(x + 1)) % P();
			c.data[i] = rawU(x);
			break;
		}
		case KP: {
			CurvePoint q(F(0), F(0));
			memcpy(static_cast<void *>(&q), c.data[i].data(), sizeof q);
			if (c.op == VERIFY || s.flag()) put(q.y.value, num(q.y) == 0 ? Num(0) : Num(P() - num(q.y)));
			else if (c.op != P_COMPRESS && c.op != P_ONCURVE) {
				Num k = scale(s);
				put(q.x.value, ref::mulm(num(q.x), k, P()));
				put(q.y.value, ref::mulm(num(q.y), k, P()));
				put(q.z.value, ref::mulm(num(q.z), k, P()));
			}
			c.data[i] = rawP(q);
			break;
		}
		case KX: {
			ExtendedPrivateKey x;
			memcpy(static_cast<void *>(&x), c.data[i].data(), sizeof x);
			switch (s.below(3)) {
				case 0: x.index ^= 1u << s.below(32); break;
				case 1: x.chainCode[s.below(32)] ^= static_cast<uint8_t>(1u << s.below(8)); break;
				default: x.parentPubkeyHash[s.below(4)] ^= 1;
			}
			memcpy(c.data[i].data(), static_cast<void *>(&x), sizeof x);
			break;
		}
		case KVAR: {
			if (c.op == UTIL_COPY) { flip(s, c.data[i]); break; }
			if (s.chance(1, 3)) { if (s.flag() && !c.data[i].empty()) c.data[i].pop_back(); else c.data[i].push_back(s.u8()); }
			else flip(s, c.data[i]);
			if ((c.op == SHA256_STREAM || c.op == SHA512_STREAM) && i == 2 && c.data[i].size() % 2) c.data[i].pop_back();
			break;
		}
		case KSTR: {
			if (c.op == U_FROMSTR || c.op == H_FROMSTR || c.op == F_FROMSTR || c.op == P_FROMSTR) c.data[i][63] = static_cast<uint8_t>("0123456789abcdefABCDEF"[s.below(16)]);
			else if (c.data[i].size() > 1) {
				size_t k = s.below(c.data[i].size() - 1);
				if (s.flag()) c.data[i][k] = static_cast<uint8_t>(ALPHA[s.below(58)]);
				else c.data[i].erase(c.data[i].begin() + static_cast<long>(k));
			}
			break;
		}
		default: {
			if (c.op == IMPORT_KEY && i == 3) { c.data[i][0] ^= 1; break; }
			flip(s, c.data[i]);
		}
	}
	if (c.op == F_FROMSTR || c.op == P_FROMSTR) for (int k = 1; k < n; k++) if (ref::parseHex(std::string(c.data[k].begin(), c.data[k].end() - 1)) >= P()) return old;
	return c;
}

void borrow(Src &s, Call &c, const std::vector<Call> &from) {
	if (from.empty() || c.op == U_RECIP || c.op == UTIL_COPY) return;
	const Def &d = def(c.op);
	for (int i = 0; i < 5 && d.slot[i].kind != NONE; i++) {
		int k = d.slot[i].kind;
		if (d.slot[i].mode == OUT || d.slot[i].mode == SCRATCH || !s.chance(1, 3)) continue;
		const Call &o = from[s.below(from.size())];
		const Def &od = def(o.op);
		for (int j = 0; j < 5 && od.slot[j].kind != NONE; j++) {
			if (od.slot[j].kind != k || od.slot[j].mode == OUT || od.slot[j].mode == SCRATCH) continue;
			if (k == KB1 || (k == KP && (c.op == P_COMPRESS || c.op == P_ONCURVE)) || (k == KSTR && o.op != c.op) || (k == KVAR && (o.op == UTIL_COPY || i != 1 || j != 1))) continue;
			if (k == KP && (o.op == VERIFY || o.op == P_EQ || o.op == P_NE || o.op == P_ONCURVE) && c.op != VERIFY && c.op != P_EQ && c.op != P_NE && c.op != P_ISZERO && c.op != P_REPLACE) continue;
			if (k == KU) {
				Num x = numU(o.data[j]);
				if ((c.op == P_PUB || c.op == XKEY_NEW || ((c.op == SIGN || c.op == SIGN_HMAC) && i == 2)) && (x == 0 || x >= N())) continue;
			}
			c.data[i] = o.data[j];
			for (bool &b : c.same) b = false;
			break;
		}
	}
}

std::string outcome(const Call &c, uint64_t ret, const uint8_t *const *mem, bool canon) {
	std::string r = "returns " + std::to_string(ret);
	const Def &d = def(c.op);
	for (int i = 0; i < 5 && d.slot[i].kind != NONE; i++) {
		if (d.slot[i].mode != OUT && d.slot[i].mode != INOUT) continue;
		size_t n = c.data[i].size();
		r += ", operand " + std::to_string(i) + " is ";
		if (d.slot[i].kind == KT36 || d.slot[i].kind == KT53 || d.slot[i].kind == KT112) {
			size_t l = strnlen(reinterpret_cast<const char *>(mem[i]), n);
			r += l < n ? '"' + std::string(reinterpret_cast<const char *>(mem[i]), l) + '"' : "unterminated " + pbt::hex(mem[i], n);
		} else if (d.slot[i].kind == KX) {
			// Without the padding
			size_t a = offsetof(ExtendedPrivateKey, depth) + 1, b = offsetof(ExtendedPrivateKey, index);
			r += pbt::hex(mem[i], a) + " " + pbt::hex(mem[i] + b, n - b);
		} else if (canon && d.slot[i].kind == KP && (c.op == P_ADD || c.op == P_TWICE || c.op == P_MUL)) {
			Num v[3];
			bool ok = true;
			for (int k = 0; k < 3; k++) { v[k] = numU(Bytes(mem[i] + 32 * k, mem[i] + 32 * k + 32)); ok &= v[k] < P(); }
			if (ok && v[2] != 0) {
				Num z = ref::invm(v[2], P());
				r += "the point " + ref::hexNum(ref::mulm(v[0], z, P())) + ", " + ref::hexNum(ref::mulm(v[1], z, P()));
			} else if (ok && v[0] == 0 && v[1] != 0) r += "zero";
			else r += pbt::hex(mem[i], n);
		} else
			r += pbt::hex(mem[i], n);
	}
	return r;
}

std::string Call::text() const {
	const Def &d = def(op);
	std::string r = d.name;
	if (arg) r += " arg=" + std::to_string(arg);
	for (int i = 0; i < 5 && d.slot[i].kind != NONE; i++) {
		if (d.slot[i].mode == OUT || d.slot[i].mode == SCRATCH) continue;
		r += " #" + std::to_string(i) + "=";
		if (d.slot[i].kind == KSTR) r += '"' + std::string(data[i].begin(), data[i].end() - 1).substr(0, 130) + '"';
		else if (d.slot[i].kind == KU || d.slot[i].kind == KF) r += ref::hexNum(numU(data[i]));
		else if (data[i].size() > 100) r += pbt::hex(data[i].data(), 40) + ".. (" + std::to_string(data[i].size()) + " bytes)";
		else r += pbt::hex(data[i].data(), data[i].size());
		if (same[i]) r += " (same object)";
	}
	return r;
}

std::string runPlain(const Call &c, RunFn f, uint8_t fill, bool canon) {
	alignas(64) static thread_local uint8_t room[5][8192];
	const Def &d = def(c.op);
	void *slot[5] = {};
	size_t len[5] = {};
	for (int i = 0; i < 5 && d.slot[i].kind != NONE; i++) {
		slot[i] = room[i];
		len[i] = c.data[i].size();
		memset(room[i] + len[i], 0, 64);
		if (d.slot[i].mode == OUT || d.slot[i].mode == SCRATCH) memset(room[i], fill, len[i]);
		else if (len[i]) memcpy(room[i], c.data[i].data(), len[i]);
		if (c.same[i]) for (int j = 0; j < i; j++) if (d.slot[j].kind == d.slot[i].kind && d.slot[j].mode == IN) { slot[i] = slot[j]; break; }
	}
	uint64_t ret = f(c.op, slot, len, c.arg);
	const uint8_t *mem[5];
	for (int i = 0; i < 5; i++) mem[i] = static_cast<uint8_t *>(slot[i]);
	for (int i = 0; i < 5 && d.slot[i].kind != NONE; i++)
		if (d.slot[i].mode == IN && len[i]) REQUIRE(memcmp(slot[i], c.data[i].data(), len[i]) == 0, "%s modified operand %d, which is an input", d.name, i);
	return outcome(c, ret, mem, canon);
}

__attribute__((noinline)) void dirtyStack(uint8_t fill) {
	volatile uint8_t junk[24000];
	memset(const_cast<uint8_t *>(junk), fill, sizeof junk);
	__asm__ volatile("" : : "r"(junk) : "memory");
}

}
