#include "ref.hpp"
#include <algorithm>
#include <cstring>

namespace ref {

const Num &TWO256() { static const Num x = Num(1) << 256; return x; }
const Num &P() { static const Num x = TWO256() - (Num(1) << 32) - 977; return x; }
const Num &N() { static const Num x("0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141"); return x; }

Num fromBE(const uint8_t *b, size_t n) {
	Num r = 0;
	for (size_t i = 0; i < n; i++) r = (r << 8) | b[i];
	return r;
}
Bytes toBE(const Num &x, size_t n) {
	Bytes r(n);
	Num t = x;
	for (size_t i = 0; i < n; i++) {
		r[n - 1 - i] = static_cast<uint8_t>(t & 0xFF);
		t >>= 8;
	}
	return r;
}
std::string hexNum(const Num &x) { return x.str(0, std::ios_base::hex); }
Num parseHex(const std::string &s) { return Num("0x" + s); }

Num addm(const Num &a, const Num &b, const Num &m) { return (a + b) % m; }
Num subm(const Num &a, const Num &b, const Num &m) { return (a % m + m - b % m) % m; }
Num mulm(const Num &a, const Num &b, const Num &m) { return (a * b) % m; }
Num powm(const Num &a, const Num &e, const Num &m) {
	Num r = 1 % m, b = a % m, k = e;
	while (k != 0) {
		if ((k & 1) != 0) r = mulm(r, b, m);
		b = mulm(b, b, m);
		k >>= 1;
	}
	return r;
}
Num gcd(Num a, Num b) {
	while (b != 0) { Num t = a % b; a = b; b = t; }
	return a;
}
Num invm(const Num &a, const Num &m) {
	// Extended Euclid, with coefficients kept modulo m
	Num r0 = m, r1 = a % m, t0 = 0, t1 = 1 % m;
	while (r1 != 0) {
		Num q = r0 / r1;
		Num r2 = r0 - q * r1;
		Num t2 = subm(t0, mulm(q % m, t1, m), m);
		r0 = r1; r1 = r2; t0 = t1; t1 = t2;
	}
	return t0;
}

Pt zero() { return Pt{true, 0, 0}; }
Pt base() {
	static const Pt g{false, Num("0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798"),
		Num("0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8")};
	return g;
}
bool same(const Pt &a, const Pt &b) { return a.inf == b.inf && (a.inf || (a.x == b.x && a.y == b.y)); }
Pt neg(const Pt &a) { return a.inf ? a : Pt{false, a.x, a.y == 0 ? Num(0) : Num(P() - a.y)}; }
Pt add(const Pt &a, const Pt &b) {
	const Num &p = P();
	if (a.inf) return b;
	if (b.inf) return a;
	Num l;
	if (a.x == b.x) {
		if ((a.y + b.y) % p == 0) return zero();
		l = mulm(mulm(3, mulm(a.x, a.x, p), p), invm(addm(a.y, a.y, p), p), p);
	} else
		l = mulm(subm(b.y, a.y, p), invm(subm(b.x, a.x, p), p), p);
	Num x = subm(subm(mulm(l, l, p), a.x, p), b.x, p);
	return Pt{false, x, subm(mulm(l, subm(a.x, x, p), p), a.y, p)};
}
// Jacobian double-and-add: x = X/Z^2, y = Y/Z^3
Pt mul(const Pt &a, const Num &k0) {
	const Num &p = P();
	Num k = k0 % N();
	if (a.inf || k == 0) return zero();
	Num X = 0, Y = 1, Z = 0;
	int top = 0;
	while ((k >> top) != 0) top++;
	for (int i = top - 1; i >= 0; i--) {
		if (Z != 0) {
			Num yy = mulm(Y, Y, p), s = mulm(4, mulm(X, yy, p), p), m = mulm(3, mulm(X, X, p), p);
			Num x3 = subm(mulm(m, m, p), addm(s, s, p), p);
			Num y3 = subm(mulm(m, subm(s, x3, p), p), mulm(8, mulm(yy, yy, p), p), p);
			Num z3 = mulm(2, mulm(Y, Z, p), p);
			X = x3; Y = y3; Z = z3;
		}
		if (((k >> i) & 1) != 0) {
			if (Z == 0) { X = a.x; Y = a.y; Z = 1; }
			else {
				Num zz = mulm(Z, Z, p), u2 = mulm(a.x, zz, p), s2 = mulm(a.y, mulm(zz, Z, p), p);
				Num h = subm(u2, X, p), r = subm(s2, Y, p);
				if (h == 0 && r == 0) {  // Same point: double it
					Num yy = mulm(Y, Y, p), s = mulm(4, mulm(X, yy, p), p), m = mulm(3, mulm(X, X, p), p);
					Num x3 = subm(mulm(m, m, p), addm(s, s, p), p);
					Num y3 = subm(mulm(m, subm(s, x3, p), p), mulm(8, mulm(yy, yy, p), p), p);
					Num z3 = mulm(2, mulm(Y, Z, p), p);
					X = x3; Y = y3; Z = z3;
				} else if (h == 0) { X = 0; Y = 1; Z = 0; }
				else {
					Num hh = mulm(h, h, p), hhh = mulm(hh, h, p), v = mulm(X, hh, p);
					Num x3 = subm(subm(mulm(r, r, p), hhh, p), addm(v, v, p), p);
					Num y3 = subm(mulm(r, subm(v, x3, p), p), mulm(Y, hhh, p), p);
					Num z3 = mulm(Z, h, p);
					X = x3; Y = y3; Z = z3;
				}
			}
		}
	}
	if (Z == 0) return zero();
	Num zi = invm(Z, p), zi2 = mulm(zi, zi, p);
	return Pt{false, mulm(X, zi2, p), mulm(Y, mulm(zi2, zi, p), p)};
}
bool onCurve(const Num &x, const Num &y) { return mulm(y, y, P()) == (mulm(mulm(x, x, P()), x, P()) + 7) % P(); }
bool liftX(const Num &x, bool odd, Pt &out) {
	const Num &p = P();
	if (x >= p) return false;
	Num c = (mulm(mulm(x, x, p), x, p) + 7) % p;
	Num y = powm(c, (p + 1) / 4, p);
	if (mulm(y, y, p) != c) return false;
	if (((y & 1) != 0) != odd) y = y == 0 ? y : Num(p - y);
	out = Pt{false, x, y};
	return true;
}

/*---- SHA-2 ----*/
static std::vector<unsigned> primes(size_t n) {
	std::vector<unsigned> r;
	for (unsigned c = 2; r.size() < n; c++) {
		bool ok = true;
		for (unsigned q : r) if (c % q == 0) { ok = false; break; }
		if (ok) r.push_back(c);
	}
	return r;
}
// floor(frac(root_k(p)) * 2^bits)
static uint64_t fracRoot(unsigned prime, int k, int bits) {
	Num target = Num(prime) << (k * bits);
	Num lo = 0, hi = Num(prime) << bits;
	while (hi - lo > 1) {
		Num mid = (lo + hi) / 2;
		Num pw = mid * mid;
		if (k == 3) pw *= mid;
		if (pw <= target) lo = mid; else hi = mid;
	}
	Num f = lo & ((Num(1) << bits) - 1);
	return static_cast<uint64_t>(f);
}
template <typename W> struct Consts { W iv[8]; std::vector<W> k; };
template <typename W> static const Consts<W> &consts() {
	static const Consts<W> c = [] {
		Consts<W> r;
		const int bits = sizeof(W) * 8, rounds = sizeof(W) == 4 ? 64 : 80;
		std::vector<unsigned> ps = primes(rounds);
		for (int i = 0; i < 8; i++) r.iv[i] = static_cast<W>(fracRoot(ps[i], 2, bits));
		for (int i = 0; i < rounds; i++) r.k.push_back(static_cast<W>(fracRoot(ps[i], 3, bits)));
		return r;
	}();
	return c;
}
template <typename W> static inline W rr(W x, int n) { return static_cast<W>((x >> n) | (x << (sizeof(W) * 8 - n))); }
template <typename W> static void compress2(W st[8], const uint8_t *b) {
	const Consts<W> &c = consts<W>();
	constexpr int WL = sizeof(W), R = WL == 4 ? 64 : 80;
	W w[80];
	for (int t = 0; t < 16; t++) {
		w[t] = 0;
		for (int j = 0; j < WL; j++) w[t] = static_cast<W>(w[t] << 8 | b[t * WL + j]);
	}
	for (int t = 16; t < R; t++) {
		W s0 = WL == 4 ? rr(w[t-15], 7) ^ rr(w[t-15], 18) ^ (w[t-15] >> 3) : rr(w[t-15], 1) ^ rr(w[t-15], 8) ^ (w[t-15] >> 7);
		W s1 = WL == 4 ? rr(w[t-2], 17) ^ rr(w[t-2], 19) ^ (w[t-2] >> 10) : rr(w[t-2], 19) ^ rr(w[t-2], WL == 4 ? 1 : 61) ^ (w[t-2] >> 6);
		w[t] = s1 + w[t-7] + s0 + w[t-16];
	}
	W a = st[0], bb = st[1], cc = st[2], d = st[3], e = st[4], f = st[5], g = st[6], h = st[7];
	for (int t = 0; t < R; t++) {
		W S1 = WL == 4 ? rr(e, 6) ^ rr(e, 11) ^ rr(e, 25) : rr(e, 14) ^ rr(e, 18) ^ rr(e, WL == 4 ? 1 : 41);
		W S0 = WL == 4 ? rr(a, 2) ^ rr(a, 13) ^ rr(a, 22) : rr(a, 28) ^ rr(a, WL == 4 ? 1 : 34) ^ rr(a, WL == 4 ? 1 : 39);
		W t1 = h + S1 + ((e & f) ^ (~e & g)) + c.k[t] + w[t];
		W t2 = S0 + ((a & bb) ^ (a & cc) ^ (bb & cc));
		h = g; g = f; f = e; e = d + t1; d = cc; cc = bb; bb = a; a = t1 + t2;
	}
	st[0] += a; st[1] += bb; st[2] += cc; st[3] += d; st[4] += e; st[5] += f; st[6] += g; st[7] += h;
}
template <typename W> static Bytes sha2(const uint8_t *m, size_t n) {
	W st[8];
	for (int i = 0; i < 8; i++) st[i] = consts<W>().iv[i];
	constexpr size_t B = sizeof(W) * 16;
	size_t i = 0;
	for (; n - i >= B; i += B) compress2<W>(st, m + i);
	Bytes tail(m + i, m + n);
	tail.push_back(0x80);
	while (tail.size() % B != B - sizeof(W) * 2) tail.push_back(0);
	Bytes len = toBE(Num(n) * 8, sizeof(W) * 2);
	tail.insert(tail.end(), len.begin(), len.end());
	for (size_t j = 0; j < tail.size(); j += B) compress2<W>(st, &tail[j]);
	Bytes r;
	for (int k = 0; k < 8; k++)
		for (int j = sizeof(W) - 1; j >= 0; j--) r.push_back(static_cast<uint8_t>(st[k] >> (8 * j)));
	return r;
}
static const uint8_t dummy[1] = {0};
Bytes sha256(const uint8_t *m, size_t n) { return sha2<uint32_t>(n ? m : dummy, n); }
Bytes sha512(const uint8_t *m, size_t n) { return sha2<uint64_t>(n ? m : dummy, n); }
void sha256Compress(uint32_t st[8], const uint8_t block[64]) { compress2<uint32_t>(st, block); }

static Bytes hmac(const Bytes &key, const Bytes &msg, size_t block, Bytes (*h)(const uint8_t *, size_t)) {
	Bytes k = key.size() > block ? h(key.data(), key.size()) : key;
	k.resize(block, 0);
	Bytes in, out;
	for (uint8_t b : k) { in.push_back(b ^ 0x36); out.push_back(b ^ 0x5C); }
	in.insert(in.end(), msg.begin(), msg.end());
	Bytes x = h(in.data(), in.size());
	out.insert(out.end(), x.begin(), x.end());
	return h(out.data(), out.size());
}
Bytes hmac256(const Bytes &key, const Bytes &msg) { return hmac(key, msg, 64, sha256); }
Bytes hmac512(const Bytes &key, const Bytes &msg) { return hmac(key, msg, 128, sha512); }

/*---- RIPEMD-160, from the paper: message order by the permutations rho and pi ----*/
Bytes ripemd160(const uint8_t *m, size_t n) {
	static const int rho[16] = {7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8};
	static const int shifts[5][16] = {  // By round and message word index
		{11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8},
		{12, 13, 11, 15, 6, 9, 9, 7, 12, 15, 11, 13, 7, 8, 7, 7},
		{13, 15, 14, 11, 7, 7, 6, 8, 13, 14, 13, 12, 5, 5, 6, 9},
		{14, 11, 12, 14, 8, 6, 5, 5, 15, 12, 15, 14, 9, 9, 8, 6},
		{15, 12, 13, 13, 9, 5, 8, 6, 14, 11, 12, 11, 8, 6, 5, 5}};
	static const uint32_t KL[5] = {0, 0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xA953FD4E};
	static const uint32_t KR[5] = {0x50A28BE6, 0x5C4DD124, 0x6D703EF3, 0x7A6D76E9, 0};
	static int rl[5][16], rrr[5][16];
	static bool init = false;
	if (!init) {
		for (int j = 0; j < 16; j++) { rl[0][j] = j; rrr[0][j] = (9 * j + 5) % 16; }
		for (int r = 1; r < 5; r++)
			for (int j = 0; j < 16; j++) { rl[r][j] = rho[rl[r-1][j]]; rrr[r][j] = rho[rrr[r-1][j]]; }
		init = true;
	}
	auto rol = [](uint32_t x, int k) { return x << k | x >> (32 - k); };
	auto f = [](int r, uint32_t x, uint32_t y, uint32_t z) -> uint32_t {
		switch (r) {
			case 0: return x ^ y ^ z;
			case 1: return (x & y) | (~x & z);
			case 2: return (x | ~y) ^ z;
			case 3: return (x & z) | (y & ~z);
			default: return x ^ (y | ~z);
		}
	};
	uint32_t h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
	auto block = [&](const uint8_t *b) {
		uint32_t x[16];
		for (int i = 0; i < 16; i++) x[i] = static_cast<uint32_t>(b[4*i]) | static_cast<uint32_t>(b[4*i+1]) << 8 | static_cast<uint32_t>(b[4*i+2]) << 16 | static_cast<uint32_t>(b[4*i+3]) << 24;
		uint32_t L[5], R[5];
		memcpy(L, h, sizeof L);
		memcpy(R, h, sizeof R);
		for (int r = 0; r < 5; r++)
			for (int j = 0; j < 16; j++) {
				uint32_t t = rol(L[0] + f(r, L[1], L[2], L[3]) + x[rl[r][j]] + KL[r], shifts[r][rl[r][j]]) + L[4];
				L[0] = L[4]; L[4] = L[3]; L[3] = rol(L[2], 10); L[2] = L[1]; L[1] = t;
				t = rol(R[0] + f(4 - r, R[1], R[2], R[3]) + x[rrr[r][j]] + KR[r], shifts[r][rrr[r][j]]) + R[4];
				R[0] = R[4]; R[4] = R[3]; R[3] = rol(R[2], 10); R[2] = R[1]; R[1] = t;
			}
		uint32_t t = h[1] + L[2] + R[3];
		h[1] = h[2] + L[3] + R[4];
		h[2] = h[3] + L[4] + R[0];
		h[3] = h[4] + L[0] + R[1];
		h[4] = h[0] + L[1] + R[2];
		h[0] = t;
	};
	if (n == 0) m = dummy;
	size_t i = 0;
	for (; n - i >= 64; i += 64) block(m + i);
	Bytes tail(m + i, m + n);
	tail.push_back(0x80);
	while (tail.size() % 64 != 56) tail.push_back(0);
	uint64_t bits = static_cast<uint64_t>(n) * 8;
	for (int j = 0; j < 8; j++) tail.push_back(static_cast<uint8_t>(bits >> (8 * j)));
	for (size_t j = 0; j < tail.size(); j += 64) block(&tail[j]);
	Bytes r;
	for (uint32_t w : h) for (int j = 0; j < 4; j++) r.push_back(static_cast<uint8_t>(w >> (8 * j)));
	return r;
}

/*---- Keccak[1088,512] with the original 0x01 padding ----*/
Bytes keccak256(const uint8_t *m, size_t n) {
	static uint64_t RC[24];
	static int rot[5][5];
	static bool init = false;
	if (!init) {
		unsigned lfsr = 1;
		for (int r = 0; r < 24; r++) {
			RC[r] = 0;
			for (int j = 0; j < 7; j++) {
				if (lfsr & 1) RC[r] |= UINT64_C(1) << ((1 << j) - 1);
				lfsr = lfsr & 0x80 ? (lfsr << 1) ^ 0x171 : lfsr << 1;
			}
		}
		int x = 1, y = 0;
		rot[0][0] = 0;
		for (int t = 0; t < 24; t++) {
			rot[x][y] = ((t + 1) * (t + 2) / 2) % 64;
			int nx = y, ny = (2 * x + 3 * y) % 5;
			x = nx; y = ny;
		}
		init = true;
	}
	auto rol = [](uint64_t v, int k) { return k ? v << k | v >> (64 - k) : v; };
	uint64_t A[5][5];
	memset(A, 0, sizeof A);
	auto permute = [&]() {
		for (int r = 0; r < 24; r++) {
			uint64_t C[5], D[5], B[5][5];
			for (int x = 0; x < 5; x++) C[x] = A[x][0] ^ A[x][1] ^ A[x][2] ^ A[x][3] ^ A[x][4];
			for (int x = 0; x < 5; x++) D[x] = C[(x + 4) % 5] ^ rol(C[(x + 1) % 5], 1);
			for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) A[x][y] ^= D[x];
			for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) B[y][(2 * x + 3 * y) % 5] = rol(A[x][y], rot[x][y]);
			for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) A[x][y] = B[x][y] ^ (~B[(x + 1) % 5][y] & B[(x + 2) % 5][y]);
			A[0][0] ^= RC[r];
		}
	};
	auto absorb = [&](const uint8_t *b) {
		for (int i = 0; i < 17; i++) {
			uint64_t v = 0;
			for (int j = 7; j >= 0; j--) v = v << 8 | b[8 * i + j];
			A[i % 5][i / 5] ^= v;
		}
		permute();
	};
	if (n == 0) m = dummy;
	size_t i = 0;
	for (; n - i >= 136; i += 136) absorb(m + i);
	uint8_t last[136] = {0};
	memcpy(last, m + i, n - i);
	last[n - i] ^= 0x01;
	last[135] ^= 0x80;
	absorb(last);
	Bytes r;
	for (int k = 0; k < 4; k++) for (int j = 0; j < 8; j++) r.push_back(static_cast<uint8_t>(A[k][0] >> (8 * j)));
	return r;
}

/*---- Base 58 ----*/
static const char *ALPHA = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
std::string base58(const Bytes &b) {
	Num x = fromBE(b.data(), b.size());
	std::string r;
	while (x != 0) { r += ALPHA[static_cast<unsigned>(x % 58)]; x /= 58; }
	for (size_t i = 0; i < b.size() && b[i] == 0; i++) r += '1';
	std::reverse(r.begin(), r.end());
	return r;
}
std::string base58check(const Bytes &payload) {
	Bytes b = payload, h = sha256d(payload);
	b.insert(b.end(), h.begin(), h.begin() + 4);
	return base58(b);
}
bool unbase58(const std::string &s, Bytes &out) {
	if (s.size() > 150) return false;
	Num x = 0;
	size_t ones = 0;
	bool lead = true;
	for (char c : s) {
		const char *q = c ? strchr(ALPHA, c) : nullptr;
		if (!q) return false;
		x = x * 58 + static_cast<unsigned>(q - ALPHA);
		if (lead && c == '1') ones++; else lead = false;
	}
	size_t len = 0;
	while ((x >> static_cast<unsigned>(8 * len)) != 0) len++;
	out.assign(ones, 0);
	Bytes v = toBE(x, len);
	out.insert(out.end(), v.begin(), v.end());
	return true;
}

/*---- ECDSA ----*/
Ecdsa sign(const Num &key, const Num &hash, const Num &nonce) {
	if (nonce == 0 || nonce >= N()) return Ecdsa{false, 0, 0};
	Pt p = mul(base(), nonce);
	Num r = p.x % N();
	if (r == 0) return Ecdsa{false, 0, 0};
	Num s = mulm(invm(nonce, N()), addm(hash, mulm(r, key, N()), N()), N());
	if (s == 0) return Ecdsa{false, 0, 0};
	if (N() - s < s) s = N() - s;
	return Ecdsa{true, r, s};
}
bool verify(const Pt &q, const Num &hash, const Num &r, const Num &s) {
	if (q.inf || r == 0 || s == 0 || r >= N() || s >= N()) return false;
	Num w = invm(s, N());
	Pt p = add(mul(base(), mulm(hash, w, N())), mul(q, mulm(r, w, N())));
	return !p.inf && p.x % N() == r;
}

/*---- BIP 32 ----*/
Bytes compressed(const Pt &p) {
	Bytes r(1, static_cast<uint8_t>((p.y & 1) != 0 ? 3 : 2)), x = toBE(p.x, 32);
	r.insert(r.end(), x.begin(), x.end());
	return r;
}
Bytes childMsg(const ExtKey &k, const Pt &pub, uint32_t index) {
	Bytes m;
	if (index >= UINT32_C(0x80000000)) {
		m.push_back(0);
		Bytes x = toBE(k.key, 32);
		m.insert(m.end(), x.begin(), x.end());
	} else
		m = compressed(pub);
	Bytes i = toBE(index, 4);
	m.insert(m.end(), i.begin(), i.end());
	return m;
}
ExtChild childFrom(const ExtKey &k, const Pt &pub, uint32_t index, const Bytes &I) {
	Num il = fromBE(I.data(), 32);
	if (il >= N()) return ExtChild{true, {}};
	Num c = addm(il, k.key, N());
	if (c == 0) return ExtChild{true, {}};
	Bytes id = ripemd160(sha256(compressed(pub)));
	return ExtChild{false, ExtKey{c, Bytes(I.begin() + 32, I.end()), k.depth + 1, index, Bytes(id.begin(), id.begin() + 4)}};
}

}
