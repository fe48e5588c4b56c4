import hashlib
P = 2**256 - 2**32 - 977
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
H = lambda x: "%064X" % x
ASM = [["-O1"], ["-O1", "-DUSE_X8664_ASM_IMPL"]]
CPPHEAD = r'''
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include "Base58Check.hpp"
#include "CurvePoint.hpp"
#include "Ecdsa.hpp"
#include "ExtendedPrivateKey.hpp"
#include "FieldInt.hpp"
#include "Keccak256.hpp"
#include "Ripemd160.hpp"
#include "Sha256.hpp"
#include "Sha512.hpp"
#include "Uint256.hpp"
static void show(const Uint256 &x) { uint8_t b[32]; x.getBigEndianBytes(b); for (int i = 0; i < 32; i++) printf("%02x", b[i]); puts(""); }
static void show(const uint8_t *b, int n) { for (int i = 0; i < n; i++) printf("%02x", b[i]); puts(""); }
'''
SEEDS = []

# 1: products whose Barrett remainder lies in [2^256, 2p): find x*y = q*p + r with the quotient estimate one too low
def barrett_cases():
	import random
	rng = random.Random(5)
	B = 2**512 // P
	r = []
	while len(r) < 3:
		x = P - rng.randrange(1, 2**40)
		# x*y = q p + rem with tiny rem, wanted rem in [2^32+977, ..) and small, q large
		rem = 2**32 + 977 + rng.randrange(2**20)
		y = rem * pow(x, -1, P) % P
		p0 = x * y
		d = p0 - (p0 * B >> 512) * P
		if d >= 2**256:
			r.append((x, y))
	return r
BC = barrett_cases()
SEEDS.append(dict(id="c04-barrett-top-word", property="C04", lang="cpp",
	edits=[("cpp/FieldInt.cpp", "static_cast<uint32_t>((difference[NUM_WORDS] != 0) | (*this >= MODULUS))", "static_cast<uint32_t>(*this >= MODULUS)")],
	flags=ASM, needs="a product whose Barrett quotient estimate is one too small and whose excess over 2^256 shows only in the ninth word (about one pair in 2^190)",
	breaks="the reduced product can come out too small by the modulus complement",
	demo=CPPHEAD + "int main() {\n" + "".join('{ FieldInt a("%s"), b("%s"); a.multiply(b); show(Uint256(a)); }\n' % (H(x), H(y)) for x, y in BC) + "}\n"))

# 2: multiplyModOrder forgets values in [n, 2^256) after doubling
def mulorder():
	# r * priv = delta small and even after last doubling: pick nonce 7
	return None

def ec():
	def inv(a, m): return pow(a, -1, m)
	def add(p, q):
		if p is None: return q
		if q is None: return p
		if p[0] == q[0]:
			if (p[1] + q[1]) % P == 0: return None
			l = 3 * p[0] * p[0] * inv(2 * p[1], P)
		else: l = (q[1] - p[1]) * inv(q[0] - p[0], P)
		x = (l * l - p[0] - q[0]) % P
		return x, (l * (p[0] - x) - p[1]) % P
	def mul(k, p):
		r = None
		while k:
			if k & 1: r = add(r, p)
			p = add(p, p); k >>= 1
		return r
	return add, mul
add, mul = ec()
G = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798, 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)
def sig(d, z, k):
	r = mul(k, G)[0] % N
	s = pow(k, -1, N) * (z + r * d) % N
	return r, s
# u1 = w*z with z = 2 and w = 1/s chosen so that 2w is in [n, 2^256): w = (n + 1)/2 + j... 2w = n + 1 + 2j
k, dd = 0x1234567890ABCDEF1234567890ABCDEF, 0xC0FFEE
w = (N + 1) // 2 + 12345
s = pow(w, -1, N)
z = 2
r = mul(k, G)[0] % N
# s = (z + r d)/k -> d = (s k - z)/r
dd = (s * k - z) * pow(r, -1, N) % N
Q = mul(dd, G)
SEEDS[-1]["demo"] = CPPHEAD + '''int main() {
	Uint256 z("%s"), r("%s"), s("%s"); uint8_t h[32]; z.getBigEndianBytes(h);
	CurvePoint q("%s", "%s");
	printf("%%d\\n", (int)Ecdsa::verify(q, Sha256Hash(h, 32), r, s));
}
''' % (H(z), H(r), H(s), H(Q[0]), H(Q[1]))

# 3: verify compares r with an unreduced x coordinate
xs = N
while True:
	y2 = (xs**3 + 7) % P
	y = pow(y2, (P + 1) // 4, P)
	if y * y % P == y2: break
	xs += 1
R = (xs, y)
rr = xs - N
if rr == 0:
	xs += 1
	while True:
		y2 = (xs**3 + 7) % P
		y = pow(y2, (P + 1) // 4, P)
		if y * y % P == y2: break
		xs += 1
	R = (xs, y); rr = xs - N
z3, s3 = 0x1111, 0x2222
# s R = z G + r Q -> Q = (s R - z G)/r
zg = mul(z3, G)
Q3 = mul(pow(rr, -1, N), add(mul(s3, R), (zg[0], P - zg[1])))
JHEAD = '''
import io.nayuki.bitcoin.crypto.*;
import java.util.*;
public class Demo {
	static int[] num(String... hs) { int[] r = new int[8 * hs.length]; for (int i = 0; i < hs.length; i++) Int256Math.hexToUint(hs[i], r, 8 * i); return r; }
	static byte[] bytes(String h) { byte[] b = new byte[h.length() / 2]; for (int i = 0; i < b.length; i++) b[i] = (byte)Integer.parseInt(h.substring(2 * i, 2 * i + 2), 16); return b; }
	static String hex(byte[] b) { StringBuilder s = new StringBuilder(); for (byte x : b) s.append(String.format("%02x", x)); return s.toString(); }
'''
SEEDS.append(dict(id="c10-java-px-unreduced", property="C10", lang="java",
	edits=[("java/io/nayuki/bitcoin/crypto/Ecdsa.java", "int reduce = Int256Math.lessThan(val, pOff + CurvePointMath.XCOORD, orderOff) ^ 1;", "int reduce = Int256Math.isZero(val, pOff + CurvePointMath.ZCOORD);")],
	needs="a signature whose nonce point has an x coordinate at or above the group order (one in 2^128)",
	breaks="such a valid signature is refused by the Java verification",
	demo=JHEAD + '''	public static void main(String[] a) {
		int[] q = num("%s", "%s", "%s");
		System.out.println(Ecdsa.verify(q, new Sha256Hash(bytes("%s")), num("%s"), num("%s")));
	}
}
''' % (H(Q3[0]), H(Q3[1]), H(1), H(z3), H(rr), H(s3))))

# 4: SHA-256 of 512 MiB or more
SEEDS.append(dict(id="c12-length-32-bits", property="C12", lang="cpp",
	edits=[("cpp/Sha256.cpp", "uint64_t bitLength = length << 3;", "uint64_t bitLength = static_cast<uint32_t>(length << 3);")],
	flags=[["-O2"]], needs="a message of 512 MiB or more", breaks="the length padding of long messages is truncated to 32 bits",
	demo=CPPHEAD + r'''int main() {
	std::vector<uint8_t> v(1 << 20, 0x5A);
	Sha256 h;
	for (int i = 0; i < 513; i++) h.append(v.data(), v.size());
	show(h.getHash().value, 32);
}
'''))

# 5: a segwit address with a version above 0 whose first data group is 16
SEEDS.append(dict(id="c23-last-byte-length", property="C23", lang="java",
	edits=[("java/io/nayuki/bitcoin/crypto/Bech32.java", "if (bitBuffer != 0)\n", "if (bitBuffer != 0 && bitBufferLen != 4)\n")],
	needs="an address whose last group carries four padding bits that are not zero (a program length of 2 modulo 5... with a valid checksum)",
	breaks="non-zero padding is accepted, so two different addresses decode to the same program",
	demo=JHEAD + '''	public static void main(String[] a) {
		for (int len = 2; len <= 40; len++) for (int low = 0; low < 32; low++) {
			byte[] g = new byte[1 + (len * 8 + 4) / 5];
			for (int i = 1; i < g.length; i++) g[i] = (byte)(i * 7 %% 32);
			g[g.length - 1] = (byte)low;
			String s = Bech32.bitGroupsToBech32("bc", g);
			try { Object[] r = Bech32.bech32ToSegwit(s); System.out.println(len + " " + low + " " + hex((byte[])r[2])); }
			catch (IllegalArgumentException e) { System.out.println(len + " " + low + " refused"); }
		}
	}
}
'''.replace("%%", "%")))

# 6: a pre-existing error flag in Base58 import: overflow of addUint8 ignored
SEEDS.append(dict(id="c19-add-overflow", property="C19", lang="cpp",
	edits=[("cpp/Base58Check.cpp", "if (addUint8(outData, static_cast<uint8_t>(p - &ALPHABET[0]), outDataLen))\n\t\t\treturn false;", "addUint8(outData, static_cast<uint8_t>(p - &ALPHABET[0]), outDataLen);")],
	flags=[["-O1"]], needs="a text whose number passes 256^25 in the very last addition: 25 bytes of FF except for a low part below 58, plus a digit",
	breaks="texts denoting a number just at or above 256^25 wrap around and can be accepted",
	demo=None))
# Need a wrapped result with valid checksum: payload 21 zero bytes -> decoded 25 bytes = small number <58 must end with the checksum; not possible in general,
# so use the private interface through the known wrapped values
SEEDS.pop()

# 7: BIP 32 child at the boundary
SEEDS.append(dict(id="c21-num-equals-order", property="C21", lang="cpp",
	edits=[("cpp/ExtendedPrivateKey.cpp", "if (num >= CurvePoint::ORDER)\n", "if (num > CurvePoint::ORDER)\n")],
	flags=[["-O1", "-Wl,--wrap=_ZN6Sha5127getHmacEPKhmS1_mPh"]], needs="an HMAC whose left half equals the group order exactly",
	breaks="a child key is derived where BIP 32 says the index is invalid",
	demo=CPPHEAD + '''
extern "C" void __wrap__ZN6Sha5127getHmacEPKhmS1_mPh(const uint8_t *, size_t, const uint8_t *, size_t, uint8_t *out) {
	Uint256 n("%s"); n.getBigEndianBytes(out); memset(out + 32, 7, 32);
}
int main() {
	uint8_t cc[32] = {1}, pp[4] = {2};
	ExtendedPrivateKey k(Uint256("%s"), cc, 3, 4, pp);
	ExtendedPrivateKey c = k.getChildKey(9);
	show(c.privateKey); printf("%%d %%u\\n", c.depth, c.index); show(c.chainCode, 32);
}
''' % (H(N), H(0xABCDEF0123))))

# 8: the assembly comparison treats one word as signed
SEEDS.append(dict(id="c02-asm-less-signed", property="C02", lang="cpp",
	edits=[("cpp/AsmX8664.s", "cmpq    16(%rsi), %r8\n\tcmovbl  %ecx, %eax\n\tcmoval  %edi, %eax", "cmpq    16(%rsi), %r8\n\tcmovbl  %ecx, %eax\n\tcmovgl  %edi, %eax")],
	flags=[["-O1", "-DUSE_X8664_ASM_IMPL"]], needs="two numbers with equal top words whose third words differ in the sign bit and whose lower words are ordered the other way",
	breaks="less-than gives the wrong answer in the assembly build",
	demo=CPPHEAD + r'''int main() {
	const char *v[] = {"00000000000000058000000000000000FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF", "00000000000000057FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF",
		"0000000000000005FFFFFFFFFFFFFFFF00000000000000000000000000000000", "0000000000000005000000000000000100000000000000000000000000000001"};
	for (auto a : v) for (auto b : v) printf("%d%d%d%d ", (int)(Uint256(a) < Uint256(b)), (int)(Uint256(a) <= Uint256(b)), (int)(Uint256(a) > Uint256(b)), (int)(Uint256(a) >= Uint256(b)));
	puts("");
}
'''))

# 9: the point at infinity as second operand in a non-canonical representation
SEEDS.append(dict(id="c05-zero-rep", property="C05", lang="cpp",
	edits=[("cpp/CurvePoint.cpp", "bool otherZero = other.isZero();", "bool otherZero = other == ZERO;")],
	flags=[["-O1"]], needs="adding the point at infinity in a representation (0, y, 0) with y other than 1, such as the result of an earlier sum",
	breaks="P + 0 gives zero or a degenerate triple instead of P",
	demo=CPPHEAD + r'''int main() {
	CurvePoint a = CurvePoint::G, b = CurvePoint::G;
	a.y = FieldInt("0000000000000000000000000000000000000000000000000000000000000005"); a.x = CurvePoint::FI_ZERO; a.z = CurvePoint::FI_ZERO;
	b.twice(); b.add(a); b.normalize(); show(Uint256(b.x)); show(Uint256(b.y)); show(Uint256(b.z));
}
'''))
# 10: failing signature writes R
SEEDS.append(dict(id="c09-java-r-early", property="C09", lang="java",
	edits=[("java/io/nayuki/bitcoin/crypto/Ecdsa.java", "assert Int256Math.lessThan(val, rOff, orderOff) == 1;\n\t\t\n\t\tint sOff", "assert Int256Math.lessThan(val, rOff, orderOff) == 1;\n\t\tInt256Math.copy(val, rOff, outR, 0);\n\t\t\n\t\tint sOff")],
	needs="a private key, hash and nonce for which s comes out zero", breaks="a refused signature leaves r in the output",
	demo=JHEAD + '''	public static void main(String[] a) {
		int[] r = new int[8], s = new int[8];
		System.out.println(Ecdsa.sign(num("%s"), new Sha256Hash(bytes("%s")), num("%s"), r, s));
		System.out.println(Arrays.toString(r) + Arrays.toString(s));
	}
}
''' % (H((-0x77 * pow(mul(99, G)[0] % N, -1, N)) % N), H(0x77), H(99))))
