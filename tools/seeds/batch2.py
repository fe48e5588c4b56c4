import hashlib, hmac, random
exec(open("/verif/tools/seeds/batch1.py").read().split("SEEDS = []")[0])
SEEDS = []
def S(id, prop, edits, needs, breaks, main, flags=ASM, lang="cpp", **kw):
	SEEDS.append(dict(id=id, property=prop, lang=lang, edits=edits, flags=flags, needs=needs, breaks=breaks, demo=(CPPHEAD + kw.pop("pre", "") + "int main() {\n" + main + "\n}\n") if lang == "cpp" else main, **kw))
def inv(a, m): return pow(a, -1, m)
def add(p, q):
	if p is None: return q
	if q is None: return p
	if p[0] == q[0]:
		if (p[1] + q[1]) % P == 0: return None
		l = 3 * p[0] * p[0] * inv(2 * p[1], P) % P
	else: l = (q[1] - p[1]) * inv(q[0] - p[0], P) % P
	x = (l * l - p[0] - q[0]) % P
	return (x, (l * (p[0] - x) - p[1]) % P)
def mul(k, p):
	r = None
	while k:
		if k & 1: r = add(r, p)
		p = add(p, p); k >>= 1
	return r
G = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798, 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)
def b58c(b):
	b = b + hashlib.sha256(hashlib.sha256(b).digest()).digest()[:4]
	n = int.from_bytes(b, "big"); s = ""
	while n: n, r = divmod(n, 58); s = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"[r] + s
	return "1" * (len(b) - len(b.lstrip(b"\0"))) + s
PURE = [["-O1"]]
AS = [["-O1", "-DUSE_X8664_ASM_IMPL"]]

S("c01-borrow-wrap", "C01", [("cpp/Uint256.cpp", "uint64_t diff = static_cast<uint64_t>(value[i]) - (other.value[i] & mask) - borrow;", "uint32_t sub = (other.value[i] & mask) + borrow;\n\t\tuint64_t diff = static_cast<uint64_t>(value[i]) - sub;")],
	"a subtraction that borrows into a word whose subtrahend is 0xFFFFFFFF", "the borrow is lost, so the difference is too large by a power of 2^32",
	'Uint256 a("%s"), b("%s"); printf("%%u\\n", a.subtract(b)); show(a);' % (H(5 << 64 | 7), H(0xFFFFFFFF << 32 | 8)), PURE)
S("c01-asm-add-zeroext", "C01", [("cpp/AsmX8664.s", "asm_Uint256_add:\n\tnegl    %edx\n\tmovslq  %edx, %rdx\n", "asm_Uint256_add:\n\tnegl    %edx\n\tmovslq  %edx, %rdx\n\tmovl    %edx, %r10d\n"), ("cpp/AsmX8664.s", "\tandq    %rdx, %r8\n\tandq    %rdx, %r9\n\taddq    %rax,  0(%rdi)", "\tandq    %rdx, %r8\n\tandq    %rdx, %r9\n\tshrq    $1, %r10\n\taddq    %rax,  0(%rdi)"), ("cpp/AsmX8664.s", "adcq    %rcx,  8(%rdi)\n\tadcq    %r8 , 16(%rdi)\n\tadcq    %r9 , 24(%rdi)\n\tsetc    %al", "adcq    %rcx,  8(%rdi)\n\tadcq    %r8 , 16(%rdi)\n\tadcq    $0, %r9\n\taddq    %r9 , 24(%rdi)\n\tsetc    %al")],
	"an addition with a carry into the top 64 bits while the addend's top 64 bits are all ones", "the carry out is lost", 'Uint256 a("%s"), b("%s"); printf("%%u\\n", a.add(b)); show(a);' % (H(2**256 - 1), H(2**256 - 2**192 | 1)), AS)
S("c03-iterations", "C03", [("cpp/Uint256.cpp", "for (int i = 0; i < NUM_WORDS * 32 * 2; i++) {", "for (int i = 0; i < NUM_WORDS * 32 * 2 - 8; i++) {")],
	"a modulus and value that need almost all iterations", "the reciprocal loop ends too early", 'Uint256 m("%s"), x("%s"); x.reciprocal(m); show(x);' % (H(2**256 - 3), H(3 * 2**254)), ASM)
S("c04-construct-p", "C04", [("cpp/FieldInt.cpp", "Uint256(val) {\n\tUint256::subtract(MODULUS, static_cast<uint32_t>(*this >= MODULUS));\n\tassert(*this < MODULUS);", "Uint256(val) {\n\tUint256::subtract(MODULUS, static_cast<uint32_t>(Uint256::operator>(MODULUS)));")],
	"constructing a field element from exactly p", "the element is not reduced", 'FieldInt f((Uint256("%s"))); show(Uint256(f)); printf("%%d\\n", (int)(f == CurvePoint::FI_ZERO));' % H(P))
S("c04-asm-step2-borrow", "C04", [("cpp/AsmX8664.s", "\tsbbl  $0, %r9d\n\tmovq  %rdx, %r8\n", "\tsbbl  $0, %r9d\n\tnegl  %r9d\n\tnegl  %r9d\n\tmovq  %rdx, %r8\n")], "x", "x", "", AS)
SEEDS.pop()
S("c04-double-carry", "C04", [("cpp/FieldInt.cpp", "Uint256::subtract(MODULUS, c | static_cast<uint32_t>(*this >= MODULUS));  // Conditionally subtract modulus\n}\n\n\nvoid FieldInt::square", "Uint256::subtract(MODULUS, c ^ static_cast<uint32_t>(*this >= MODULUS));  // Conditionally subtract modulus\n}\n\n\nvoid FieldInt::square")], "equivalent", "", "")
SEEDS.pop()
# Partial comparison in the group law
def partial():
	rng = random.Random(3)
	A = mul(12345, G); B = mul(67890, G)
	# u1 - u0 = (xB - xA) s0 s1 ; choose s1 so that the difference is 2^128 mod p
	s = (1 << 128) * inv(B[0] - A[0], P) % P
	return A, B, s
A_, B_, s_ = partial()
PTSET = 'CurvePoint a(FieldInt("%s"), FieldInt("%s")), b(FieldInt("%s"), FieldInt("%s")); b.z = FieldInt("%s");' % (H(A_[0]), H(A_[1]), H(B_[0] * s_ % P), H(B_[1] * s_ % P), H(s_))
S("c05-partial-compare", "C05", [("cpp/CurvePoint.cpp", "bool sameX = u0 == u1;", "bool sameX = std::equal(&u0.value[0], &u0.value[4], &u1.value[0]);"), ("cpp/CurvePoint.cpp", "#include \"CountOps.hpp\"", "#include <algorithm>\n#include \"CountOps.hpp\"")],
	"two different points whose cross-multiplied x coordinates agree in their low 128 bits", "the sum comes out as zero or as a doubling",
	PTSET + 'a.add(b); a.normalize(); show(Uint256(a.x)); show(Uint256(a.y)); show(Uint256(a.z));')
S("c07-equal-xy", "C07", [("cpp/CurvePoint.cpp", "return (x == other.x) & (y == other.y) & (z == other.z);", "return (x == other.x) & (y == other.y) & ((z == FI_ZERO) == (other.z == FI_ZERO));")],
	"comparing triples that differ only in z, neither being zero", "different representations compare equal", 'CurvePoint a = CurvePoint::G, b = a; b.z = FieldInt("%s"); printf("%%d %%d\\n", (int)(a == b), (int)(a != b));' % H(2))
S("c07-normalize-degenerate", "C07", [("cpp/CurvePoint.cpp", "y.replace(FI_ONE, static_cast<uint32_t>(y != FI_ZERO));\n\tthis->replace(norm, static_cast<uint32_t>(z != FI_ZERO));", "y.replace(FI_ONE, 1);\n\tthis->replace(norm, static_cast<uint32_t>(z != FI_ZERO));")],
	"normalizing the degenerate triple (0, 0, 0)", "it becomes the point at infinity", 'CurvePoint c = CurvePoint::ZERO; c.y = CurvePoint::FI_ZERO; printf("%d ", (int)c.isZero()); c.normalize(); printf("%d %d\\n", (int)c.isZero(), (int)(c == CurvePoint::ZERO));')
# Low s: equal top words
k8, d8 = 0x1234567, 0x998877
r8 = mul(k8, G)[0] % N
t8 = N // 2 + 5   # the raw s we want, above n/2 by little: result must be n - t8
z8 = (t8 * k8 - r8 * d8) % N
S("c08-low-s-top-word", "C08", [("cpp/Ecdsa.cpp", "s.replace(negS, static_cast<uint32_t>(negS < s));", "s.replace(negS, static_cast<uint32_t>(negS.value[Uint256::NUM_WORDS - 1] < s.value[Uint256::NUM_WORDS - 1]));")],
	"a signature whose raw s is just above half the order, with the same top word", "a high s is returned",
	'uint8_t h[32]; Uint256("%s").getBigEndianBytes(h); Uint256 r, s; printf("%%d\\n", (int)Ecdsa::sign(Uint256("%s"), Sha256Hash(h, 32), Uint256("%s"), r, s)); show(r); show(s);' % (H(z8), H(d8), H(k8)))
# s + z == n exactly at the raw sum is refused; sum in [n, 2^256)
S("c08-sum-boundary", "C08", [("cpp/Ecdsa.cpp", "s.subtract(order, carry | static_cast<uint32_t>(s >= order));", "s.subtract(order, carry);")],
	"the sum z + r*d lies in [n, 2^256) before reduction (one in 2^128)", "the signature is computed from an unreduced sum",
	'uint8_t h[32]; Uint256("%s").getBigEndianBytes(h); Uint256 r, s; printf("%%d\\n", (int)Ecdsa::sign(Uint256("%s"), Sha256Hash(h, 32), Uint256("%s"), r, s)); show(r); show(s);' % (H((N + 1000 - r8 * d8 % N) % N), H(d8), H(k8)))
S("c09-nonce-order", "C09", [("cpp/Ecdsa.cpp", "if (nonce == zero || nonce >= order)\n", "if (nonce == zero || nonce > order)\n")], "a nonce equal to the group order", "signing does not refuse it",
	'uint8_t h[32] = {1}; Uint256 r, s; printf("%%d\\n", (int)Ecdsa::sign(Uint256("%s"), Sha256Hash(h, 32), Uint256("%s"), r, s));' % (H(d8), H(N)))
# x of the nonce point at or above n
def xn():
	x = N + 1
	while True:
		y2 = (x**3 + 7) % P
		y = pow(y2, (P + 1) // 4, P)
		if y * y % P == y2: break
		x += 1
	R = (x, y); r = x % N; s = 0x1357; z = 0x2468
	Q = mul(inv(r, N), add(mul(s, R), mul(N - z, G)))
	return Q, r, s, z
Q10, r10, s10, z10 = xn()
S("c10-px-high", "C10", [("cpp/Ecdsa.cpp", "px.subtract(order, static_cast<uint32_t>(px >= order));", "px.subtract(order, static_cast<uint32_t>(px == order));")],
	"a valid signature whose nonce point has x above n (one in 2^128)", "the signature is rejected",
	'uint8_t h[32]; Uint256("%s").getBigEndianBytes(h); CurvePoint q(FieldInt("%s"), FieldInt("%s")); printf("%%d\\n", (int)Ecdsa::verify(q, Sha256Hash(h, 32), Uint256("%s"), Uint256("%s")));' % (H(z10), H(Q10[0]), H(Q10[1]), H(r10), H(s10)))
# u1 G == u2 Q: the doubling case in the final addition
S("c10-order-check", "C10", [("cpp/Ecdsa.cpp", "zero < r && r < order && zero < s && s < order", "zero < r && r < order && zero < s && s <= CurvePoint::ORDER")], "s equal to the order", "assertion failure or acceptance",
	'uint8_t h[32] = {9}; printf("%%d\\n", (int)Ecdsa::verify(CurvePoint::G, Sha256Hash(h, 32), Uint256("%s"), Uint256("%s")));' % (H(5), H(N)))
S("c14-length-29", "C14", [("cpp/Ripemd160.cpp", "for (int i = 1; i < 8; i++, len >>= 8)", "for (int i = 1; i < 4; i++, len >>= 8)")], "a message of 512 MiB or more", "the length field is truncated",
	'std::vector<uint8_t> v(513u << 20, 0x5A); uint8_t o[20]; Ripemd160::getHash(v.data(), v.size(), o); show(o, 20);', [["-O2"]])
S("c15-int-index", "C15", [("cpp/Keccak256.cpp", "for (size_t i = 0; i < len; i++) {", "for (int i = 0; i < static_cast<int>(len); i++) {")], "a message of 2 GiB or more", "the message is treated as empty",
	'std::vector<uint8_t> v((2048u << 20) + 77, 0x5A); uint8_t o[32]; Keccak256::getHash(v.data(), v.size(), o); show(o, 32);', [["-O2"]])
S("c16-key-block", "C16", [("cpp/Sha512.cpp", "if (keyLen <= BLOCK_LEN)", "if (keyLen < BLOCK_LEN)")], "an HMAC key of exactly 128 bytes", "the key is hashed first",
	'uint8_t k[128], o[64]; for (int i = 0; i < 128; i++) k[i] = i * 3; Sha512::getHmac(k, 128, k, 5, o); show(o, 64); Sha512::getHmac(k, 127, k, 5, o); show(o, 64);', PURE)
S("c17-fast-path", "C17", [("cpp/Sha256.cpp", "\tfor (size_t i = 0; i < len; i++) {\n\t\tbuffer[bufferLen] = bytes[i];\n\t\tbufferLen++;", "\tfor (size_t i = 0; i < len; i++) {\n\t\tif (bufferLen == 0 && len - i > BLOCK_LEN) {\n\t\t\tfor (; len - i >= BLOCK_LEN; i += BLOCK_LEN)\n\t\t\t\tcompress(state, &bytes[i]);\n\t\t}\n\t\tbuffer[bufferLen] = bytes[i];\n\t\tbufferLen++;")],
	"a piece longer than one block that, once the buffer is aligned, is a whole number of blocks", "one byte past the end is fed to the hash",
	'uint8_t b[400]; for (int i = 0; i < 400; i++) b[i] = i * 7; for (int n : {64, 65, 128, 192, 200, 256, 320}) { Sha256 h; h.append(b, n); show(h.getHash().value, 32); }', PURE)
S("c17-sha512-straddle", "C17", [("cpp/Sha512.cpp", "\tfor (size_t i = 0; i < len; i++) {\n\t\tbuffer[bufferLen] = bytes[i];", "\tif (bufferLen == 0 && len == BLOCK_LEN) {\n\t\tfor (int i = 0; i < BLOCK_LEN; i++)\n\t\t\tbuffer[i] = bytes[i];\n\t\tcompress();\n\t\treturn *this;\n\t}\n\tfor (size_t i = 0; i < len; i++) {\n\t\tbuffer[bufferLen] = bytes[i];")],
	"a piece of exactly one block at a block boundary", "its length is not counted", 'uint8_t b[256], o[64]; for (int i = 0; i < 256; i++) b[i] = i; Sha512 h; h.append(b, 128); h.append(b, 3); h.getHash(o); show(o, 64);', PURE)
S("c18-leading-zeros", "C18", [("cpp/Base58Check.cpp", "while (leadingZeros < dataLen && data[leadingZeros] == 0)", "while (leadingZeros < dataLen - 4 - 1 && data[leadingZeros] == 0)")], "a payload that is zero throughout", "one leading 1 is missing",
	'uint8_t h[20] = {}; char s[40]; Base58Check::pubkeyHashToBase58Check(h, 0, s); puts(s); h[19] = 1; Base58Check::pubkeyHashToBase58Check(h, 0, s); puts(s);', PURE)
S("c19-wif-marker", "C19", [("cpp/Base58Check.cpp", "if (decoded[33] != 0x01)  // Check compressed marker byte", "if ((decoded[33] & 0x01) == 0)  // Check compressed marker byte")], "a WIF text of compressed length with a valid checksum and a marker byte other than 1", "it is accepted",
	'''const char *t[] = {%s}; for (auto s : t) { Uint256 k; bool c = false; uint8_t v = 0; printf("%%d %%d %%d\\n", (int)Base58Check::privateKeyFromBase58Check(s, k, &v, &c), c, v); }''' % ", ".join('"%s"' % b58c(b"\x80" + bytes(range(1, 33)) + bytes([m])) for m in (1, 0, 2, 3, 5, 129, 255)), PURE)
S("c19-xprv-key-order", "C19", [("cpp/Base58Check.cpp", "if (privateKey == Uint256::ZERO || privateKey >= CurvePoint::ORDER)\n", "if (privateKey == Uint256::ZERO || privateKey.value[Uint256::NUM_WORDS - 1] > CurvePoint::ORDER.value[Uint256::NUM_WORDS - 1])\n")], "an xprv text whose key is at or above the order", "it is not refused",
	'ExtendedPrivateKey k; printf("%%d\\n", (int)Base58Check::extendedPrivateKeyFromBase58Check("%s", k));' % b58c(bytes.fromhex("0488ADE4") + b"\0" * 9 + b"\7" * 32 + b"\0" + (N + 5).to_bytes(32, "big")), PURE)
S("c21-harden-parent", "C21", [("cpp/ExtendedPrivateKey.cpp", "uint32_t carry = num.add(privateKey);\n\tnum.subtract(CurvePoint::ORDER, carry | static_cast<uint32_t>(num >= CurvePoint::ORDER));", "uint32_t carry = num.add(privateKey);\n\tnum.subtract(CurvePoint::ORDER, carry);\n\tif (num == CurvePoint::ORDER)\n\t\treturn ExtendedPrivateKey();")],
	"the derived sum lies in (n, 2^256) (one in 2^128)", "the child key is at or above the order",
	'''uint8_t cc[32] = {1}, pp[4] = {2};
	ExtendedPrivateKey k(Uint256("%s"), cc, 3, 4, pp);
	ExtendedPrivateKey c = k.getChildKey(9);
	show(c.privateKey); printf("%%d %%u\\n", c.depth, c.index); show(c.chainCode, 32);''' % H(N - 500), [["-O1", "-DNDEBUG", "-Wl,--wrap=_ZN6Sha5127getHmacEPKhmS1_mPh"]], pre='''
extern "C" void __wrap__ZN6Sha5127getHmacEPKhmS1_mPh(const uint8_t *, size_t, const uint8_t *, size_t, uint8_t *out) {
	Uint256 n("%s"); n.getBigEndianBytes(out); memset(out + 32, 7, 32);
}
''' % H(600))
S("c24-last-byte", "C24", [("cpp/Sha256Hash.cpp", "for (int i = 0; i < HASH_LEN; i++)\n\t\tdiff |= value[i] ^ other.value[i];", "for (int i = 0; i < HASH_LEN; i++)\n\t\tdiff = (diff | value[i]) ^ other.value[i];")], "two hashes whose differing bytes cancel out", "different hashes compare equal or equal ones unequal",
	'uint8_t a[32] = {}, b[32] = {}; b[30] = 1; a[31] = 1; b[31] = 0; printf("%d", (int)(Sha256Hash(a, 32) == Sha256Hash(b, 32))); memset(a, 0, 32); memset(b, 0, 32); a[3] = 1; b[3] = 0; a[4] = 1; b[4] = 1; printf("%d", (int)(Sha256Hash(a, 32) == Sha256Hash(b, 32))); memset(a, 7, 32); printf("%d\\n", (int)(Sha256Hash(a, 32) == Sha256Hash(a, 32)));', PURE)
S("c02-lower-f", "C02", [("cpp/Utils.cpp", "else if ('a' <= ch && ch <= 'f')\n\t\treturn ch - 'a' + 10;", "else if ('a' <= ch && ch < 'f')\n\t\treturn ch - 'a' + 10;")], "a hexadecimal text containing a lower-case f", "the text is refused",
	'show(Uint256("00000000000000000000000000000000000000000000000000000000deadbeef"));', PURE)

# ---- Constant time: compare execution traces of two secrets ----
CT_SH = r'''#!/bin/bash
# Run in /repo after its build: the instructions executed and addresses accessed must not depend on the secret
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'find "$t" -delete' EXIT
libs=""
for n in Base58Check CurvePoint Ecdsa ExtendedPrivateKey FieldInt Keccak256 Ripemd160 Sha256 Sha256Hash Sha512 Uint256 Utils; do
	libs="$libs cpp/$n.cpp"
done
g++ -std=c++11 -w -no-pie -Icpp %s "$here/demo.cpp" $libs %s -o "$t/demo" 2>/dev/null || exit 2
at=$(nm "$t/demo" | sed -n 's/^0*\([0-9a-f]*\) B marker$/\1/p')
for k in 1 2; do
	( exec 3> >(awk -v at="^0*$at," '$1 == "S" && $2 ~ at { n++ } n == 1' | md5sum > "$t/sum$k"); setarch -R valgrind --tool=lackey --trace-mem=yes --log-fd=3 "$t/demo" $k > /dev/null 2>/dev/null; exec 3>&- ; wait )
	sleep 1
done
for i in 1 2 3 4 5 6 7 8 9 10; do [ -s "$t/sum1" ] && [ -s "$t/sum2" ] && break; sleep 1; done
diff "$t/sum1" "$t/sum2"
'''
CT_DEMO = CPPHEAD + r'''
volatile int marker;
int main(int argc, char **argv) {
	static const char *const A[3] = {@A}, *const B[3] = {@B};
	uint32_t m = -static_cast<uint32_t>(argv[1][0] & 1);  // Selects the secret without a branch
	Uint256 v[3];
	for (int i = 0; i < 3; i++) {
		Uint256 a(A[i]), b(B[i]);
		for (int j = 0; j < 8; j++)
			v[i].value[j] = (a.value[j] & m) | (b.value[j] & ~m);
	}
	marker = 1;
	@C
	marker = 2;
}
'''
def CT(id, prop, edits, needs, breaks, secrets, body, flags="-O1", asm=""):
	q = [", ".join('"%s"' % H(x) for x in (s + [0, 0, 0])[:3]) for s in secrets]
	SEEDS.append(dict(id=id, property=prop, lang="sh", edits=edits, needs=needs, breaks=breaks, sh=CT_SH % (flags, asm), files={"demo.cpp": CT_DEMO.replace("@A", q[0]).replace("@B", q[1]).replace("@C", body)}))
CP = "cpp/CurvePoint.cpp"
CT("c25-table-index", "C25", [(CP, "q.replace(table[j], static_cast<uint32_t>(j == inc));", "q.replace(table[j], static_cast<uint32_t>(j == inc));\n\t\t\tif (j == inc) break;")], "two scalars that differ in one 4-bit digit", "the table scan stops at the secret digit",
	[[0x5], [0x6]], "CurvePoint c = CurvePoint::G; c.multiply(Uint256(v[0]));")
CT("c25-skip-zero-digit", "C25", [(CP, "\t\tthis->add(q);\n", "\t\tif (inc != 0)\n\t\t\tthis->add(q);\n")], "scalars with a different number of zero digits", "the addition is skipped for zero digits", [[0x11], [0x10]], "CurvePoint c = CurvePoint::G; c.multiply(Uint256(v[0]));")
CT("c25-add-shortcut", "C25", [(CP, "\tbool otherZero = other.isZero();\n", "\tbool otherZero = other.isZero();\n\tif (otherZero)\n\t\treturn;\n")], "adding the point at infinity", "the addition returns early", [[0x11], [0x10]], "CurvePoint c = CurvePoint::G; c.multiply(Uint256(v[0]));")
CT("c25-equal-early", "C25", [("cpp/Uint256.cpp", "\t\tdiff |= value[i] ^ other.value[i];\n", "\t\tdiff |= value[i] ^ other.value[i];\n\t\tif (diff != 0)\n\t\t\tbreak;\n")], "numbers that differ in different words", "the comparison stops at the first differing word", [[1, 0], [1 << 200, 0]], "Uint256 a(v[0]), b(v[1]); volatile bool r = a == b;")
CT("c25-low-s-branch", "C25", [("cpp/Ecdsa.cpp", "\ts.replace(negS, static_cast<uint32_t>(negS < s));  // To ensure low S values for BIP 62\n", "\tif (negS < s)\n\t\ts.replace(negS, 1);  // To ensure low S values for BIP 62\n")], "signatures whose raw s lies above and below half the order", "the negation is a branch on secret data",
	[[3, 0x77], [4, 0x77]], "uint8_t h[32] = {1}; Uint256 r, s; Ecdsa::sign(Uint256(v[0]), Sha256Hash(h, 32), Uint256(v[1]), r, s);")
def lows():  # Secrets with raw s on both sides
	z = 1 << 248
	lo = hi = None
	d = 2
	while lo is None or hi is None:
		r = mul(0x77, G)[0] % N
		s = (z + r * d) * inv(0x77, N) % N
		if s > N // 2: hi = hi or d
		else: lo = lo or d
		d += 1
	return lo, hi
lo, hi = lows()
SEEDS[-1]["files"]["demo.cpp"] = SEEDS[-1]["files"]["demo.cpp"].replace('A[3] = {"%s"' % H(3), 'A[3] = {"%s"' % H(lo)).replace('B[3] = {"%s"' % H(4), 'B[3] = {"%s"' % H(hi))
CT("c25-field-final", "C25", [("cpp/FieldInt.cpp", "\tUint256::subtract(MODULUS, dosub);\n", "\tif (dosub != 0)\n\t\tUint256::subtract(MODULUS, 1);\n")], "products that need the final subtraction of the modulus and products that do not", "the subtraction is a branch on secret data (rarely taken)",
	[[P - 1, P - 2], [3, 5]], "FieldInt a(v[0]), b(v[1]); a.multiply(b);")
def fin():
	B = 2**512 // P; rng = random.Random(1)
	while True:
		x = P - rng.randrange(1, 2**40)
		y = (rng.randrange(2**30)) * inv(x, P) % P
		q = (x * y * B) >> 512
		if x * y - q * P >= P: return x, y
fx, fy = fin()
SEEDS[-1]["files"]["demo.cpp"] = SEEDS[-1]["files"]["demo.cpp"].replace('"%s"' % H(P - 1), '"%s"' % H(fx)).replace('"%s"' % H(P - 2), '"%s"' % H(fy))
CT("c25-asm-replace-branch", "C25", [("cpp/AsmX8664.s", "asm_Uint256_replace:\n\tnegl      %edx\n", "asm_Uint256_replace:\n\tnegl      %edx\n\tjz        .replacedone\n"), ("cpp/AsmX8664.s", "\tmovdqu    %xmm1,  0(%rdi)\n\tmovdqu    %xmm2, 16(%rdi)\n\tretq\n\n\n/* void asm_Uint256_swap", "\tmovdqu    %xmm1,  0(%rdi)\n\tmovdqu    %xmm2, 16(%rdi)\n.replacedone:\n\tretq\n\n\n/* void asm_Uint256_swap")],
	"the assembly build, with the enable flag on and off", "the conditional copy branches on its flag", [[1], [2]], "Uint256 a(v[0]), b(v[0]); a.replace(b, Uint256(v[0]).value[0] & 1);", "-O1 -DUSE_X8664_ASM_IMPL", "cpp/AsmX8664.s")
CT("c25-reciprocal-stop", "C25", [("cpp/Uint256.cpp", "\t\tuint32_t borrow = b.subtract(a, enable);\n\t\tb.add(modulus, borrow);\n", "\t\tuint32_t borrow = b.subtract(a, enable);\n\t\tb.add(modulus, borrow);\n\t\tif (y == ZERO)\n\t\t\tbreak;\n")], "values that need different numbers of steps", "the loop ends as soon as the answer is known", [[3], [N - 1]], 'Uint256 a(v[0]); a.reciprocal(CurvePoint::ORDER);')
CT("c25-normalize-branch", "C25", [(CP, "\tthis->replace(norm, static_cast<uint32_t>(z != FI_ZERO));\n}", "\tif (z != FI_ZERO)\n\t\t*this = norm;\n}")], "the point at infinity and any other point", "normalization branches on whether the point is zero", [[1], [0]], "CurvePoint c = CurvePoint::G; c.z = FieldInt(v[0]); c.normalize();")
CT("c25-order-bit", "C25", [("cpp/Ecdsa.cpp", "c = z.add(x, enable);\n", "c = enable != 0 ? z.add(x) : 0;\n")], "private keys with different bits", "modular multiplication branches on the bits of the key", [[0x3, 0x77], [0x5, 0x77]], "uint8_t h[32] = {1}; Uint256 r, s; Ecdsa::sign(Uint256(v[0]), Sha256Hash(h, 32), Uint256(v[1]), r, s);")
CT("c25-iszero-short", "C25", [(CP, "return (x == FI_ZERO) & (y != FI_ZERO) & (z == FI_ZERO);", "return x == FI_ZERO && y != FI_ZERO && z == FI_ZERO;")], "points with a zero and a non-zero x coordinate", "the predicate stops early", [[0], [1]], "CurvePoint c = CurvePoint::G; c.x = FieldInt(v[0]); volatile bool r = c.isZero();")
