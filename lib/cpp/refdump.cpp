/* Prints what the reference models compute for fixed inputs; lib/py/selftest.py compares it with Python's own. */
#include "ref.hpp"
#include <cstdio>
using namespace ref;

static std::string hx(const Bytes &b) { std::string r; char t[3]; for (uint8_t x : b) { snprintf(t, 3, "%02x", x); r += t; } return r; }
static Bytes msg(size_t n) { Bytes b(n); for (size_t i = 0; i < n; i++) b[i] = static_cast<uint8_t>(i * 7 + n); return b; }

int main() {
	for (size_t n = 0; n < 420; n += n < 300 ? 1 : 17) {
		Bytes m = msg(n), k = msg(n % 150);
		printf("sha256 %zu %s\n", n, hx(sha256(m)).c_str());
		printf("sha512 %zu %s\n", n, hx(sha512(m.data(), n)).c_str());
		printf("ripemd160 %zu %s\n", n, hx(ripemd160(m)).c_str());
		printf("keccak256 %zu %s\n", n, hx(keccak256(m.data(), n)).c_str());
		printf("hmac256 %zu %s\n", n, hx(hmac256(k, m)).c_str());
		printf("hmac512 %zu %s\n", n, hx(hmac512(k, m)).c_str());
		if (n < 100) {
			printf("base58check %zu %s\n", n, base58check(m).c_str());
			Bytes z = m;
			for (size_t i = 0; i < n / 3; i++) z[i] = 0;
			printf("base58zeros %zu %s\n", n, base58(z).c_str());
		}
	}
	for (size_t i = 0; i < 60; i++) {
		Num a = fromBE(sha256(msg(i)).data(), 32), b = fromBE(sha256(msg(i + 1000)).data(), 32), c = fromBE(sha256(msg(i + 2000)).data(), 32);
		printf("mulm %zu %s\n", i, hexNum(mulm(a, b, c)).c_str());
		printf("gcd %zu %s\n", i, hexNum(gcd(a, b)).c_str());
		printf("invm %zu %s\n", i, hexNum(invm(a % P(), P())).c_str());
		Pt g = mul(base(), i < 20 ? Num(i) : i < 30 ? Num(N() + 5 - i) : a), q = add(g, mul(base(), b));
		printf("mul %zu %s\n", i, g.inf ? "inf" : hexNum(g.x).c_str());
		printf("add %zu %s\n", i, q.inf ? "inf" : (hexNum(q.x) + " " + hexNum(q.y)).c_str());
		Ecdsa e = sign(a % N(), b, c % N());
		printf("sign %zu %s %s\n", i, hexNum(e.r).c_str(), hexNum(e.s).c_str());
		printf("verify %zu %d%d%d\n", i, verify(mul(base(), a % N()), b, e.r, e.s), verify(mul(base(), a % N()), b, e.r, N() - e.s), verify(mul(base(), a % N()), b + 1, e.r, e.s));
		ExtKey x{a % N(), msg(32), 3, static_cast<uint32_t>(i), msg(4)};
		uint32_t index = i % 2 ? 0x80000000u + static_cast<uint32_t>(i) : static_cast<uint32_t>(i);
		Pt pub = mul(base(), x.key);
		ExtChild ch = childFrom(x, pub, index, hmac512(x.chain, childMsg(x, pub, index)));
		printf("child %zu %s %s %s\n", i, hexNum(ch.k.key).c_str(), hx(ch.k.chain).c_str(), hx(ch.k.fp).c_str());
	}
}
