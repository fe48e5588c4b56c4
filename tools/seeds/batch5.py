exec(open("/verif/tools/seeds/batch3.py").read().split('# --- Java arithmetic and curve ---')[0])
SEEDS = []
ORDER_SH = r'''#!/bin/bash
# Run in /repo after its build: the same program, linked with the library's files in two orders, must print the same
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'find "$t" -delete' EXIT
a="Utils Uint256 FieldInt CurvePoint Sha256Hash Sha256 Sha512 Ripemd160 Keccak256 Ecdsa Base58Check ExtendedPrivateKey"
b="%s"
for n in $a; do
	g++ -std=c++11 -w -O1 -c cpp/$n.cpp -o "$t/$n.o" || exit 2
done
g++ -std=c++11 -w -O1 -Icpp -c "$here/main.cpp" -o "$t/main.o" || exit 2
g++ "$t/main.o" $(for n in $a; do echo "$t/$n.o"; done) -o "$t/a" || exit 2
g++ "$t/main.o" $(for n in $b; do echo "$t/$n.o"; done) -o "$t/b" || exit 2
ulimit -c 0
"$t/a" > "$t/a.txt" || exit 3
timeout 60 "$t/b" > "$t/b.txt" 2>/dev/null || exit 1
cmp "$t/a.txt" "$t/b.txt" || exit 1
'''
ORDER_MAIN = '''#include "Ecdsa.hpp"
#include "CurvePoint.hpp"
#include <cstdio>
static void show(const Uint256 &x) { uint8_t b[32]; x.getBigEndianBytes(b); for (int i = 0; i < 32; i++) printf("%02x", b[i]); puts(""); }
int main() {
	show(Uint256(CurvePoint::FI_ONE));
	show(Uint256(CurvePoint::G.z));
	show(Uint256(CurvePoint::B));
	uint8_t h[32] = {5, 6, 7};
	for (int i = 1; i < 9; i++) {
		h[31] = i;
		Uint256 k("00000000000000000000000000000000000000000000000000000000000F1234"), r, s;
		bool ok = Ecdsa::signWithHmacNonce(k, Sha256Hash(h, 32), r, s);
		printf("%d\\n", (int)ok);
		show(r);
		show(s);
	}
}
'''
REV = "ExtendedPrivateKey Base58Check Ecdsa Keccak256 Ripemd160 Sha512 Sha256 Sha256Hash CurvePoint FieldInt Uint256 Utils"
def O(id, edits, needs, breaks, order=REV):
	SEEDS.append(dict(id=id, property="C33", lang="sh", edits=edits, needs=needs, breaks=breaks, sh=ORDER_SH % order, files={"main.cpp": ORDER_MAIN}))
O("c33-one-shared", [("cpp/CurvePoint.cpp", 'const FieldInt CurvePoint::FI_ONE ("0000000000000000000000000000000000000000000000000000000000000001");', "const FieldInt CurvePoint::FI_ONE (Uint256::ONE);")],
	"linking CurvePoint.cpp before FieldInt.cpp or Uint256.cpp", "the constant one is built from objects that are not ready, so the program stops at an assertion or computes with zero")
O("c33-half-order", [("cpp/Ecdsa.cpp", "\tUint256 negS = order;\n\tnegS.subtract(s);\n\ts.replace(negS, static_cast<uint32_t>(negS < s));  // To ensure low S values for BIP 62\n", "\tUint256 negS = order;\n\tnegS.subtract(s);\n\ts.replace(negS, static_cast<uint32_t>(s > HALF_ORDER));  // To ensure low S values for BIP 62\n"),
	("cpp/Ecdsa.cpp", "bool Ecdsa::sign(const Uint256 &privateKey,", "static Uint256 half(Uint256 x) {\n\tx.shiftRight1();\n\treturn x;\n}\n\nstatic const Uint256 HALF_ORDER = half(CurvePoint::ORDER);\n\n\nbool Ecdsa::sign(const Uint256 &privateKey,")],
	"linking Ecdsa.cpp before CurvePoint.cpp", "half the order is computed from the order before that is set, so every signature is negated and s comes out high")
O("c33-b-from-bytes", [("cpp/CurvePoint.cpp", 'const FieldInt CurvePoint::B    ("0000000000000000000000000000000000000000000000000000000000000007");', "static FieldInt small(int n) {\n\tFieldInt r(Uint256::ZERO);\n\tfor (; n > 0; n--)\n\t\tr.add(FieldInt(Uint256::ONE));\n\treturn r;\n}\nconst FieldInt CurvePoint::B    (small(7));")],
	"linking CurvePoint.cpp before FieldInt.cpp or Uint256.cpp", "the curve's coefficient is zero or the program stops at an assertion")
J("c33-java-cycle", "C33", [("Int256Math", "static final int[] FIELD_MODULUS = {0xFFFFFC2F, 0xFFFFFFFE, 0xFFFFFFFF, 0xFFFFFFFF, 0xFFFFFFFF, 0xFFFFFFFF, 0xFFFFFFFF, 0xFFFFFFFF};", "static final int[] FIELD_MODULUS = CurvePointMath.MODULUS;"),
	("CurvePointMath", "static final int[] A     = {0x00000000, 0x00000000, 0x00000000, 0x00000000, 0x00000000, 0x00000000, 0x00000000, 0x00000000};", "static final int[] A     = Int256Math.ZERO;\n\tstatic final int[] MODULUS = {0xFFFFFC2F, 0xFFFFFFFE, 0xFFFFFFFF, 0xFFFFFFFF, 0xFFFFFFFF, 0xFFFFFFFF, 0xFFFFFFFF, 0xFFFFFFFF};")],
	"a process whose first use of the library is CurvePointMath", "the modulus is null when the field arithmetic copies it", "int[] v = new int[24 + 200]; System.arraycopy(CurvePointMath.getBasePoint(), 0, v, 0, 24); CurvePointMath.twice(v, 0, 24); CurvePointMath.normalize(v, 0, 24); System.out.println(java.util.Arrays.hashCode(v));")
J("c33-java-digits", "C33", [(B58, "\t\t\tint digit = ALPHABET.indexOf(s.charAt(i));\n", "\t\t\tint digit = s.charAt(i) < 128 ? DIGITS[s.charAt(i)] - 1 : -1;\n"),
	(B58, "\tprivate static final BigInteger ALPHABET_SIZE = BigInteger.valueOf(ALPHABET.length());", "\tprivate static final BigInteger ALPHABET_SIZE = BigInteger.valueOf(ALPHABET.length());\n\tprivate static final byte[] DIGITS = new byte[128];  // Value plus one, by character"),
	(B58, "\t\t// Convert to base-58 string\n\t\tStringBuilder sb = new StringBuilder();\n", "\t\t// Convert to base-58 string\n\t\tStringBuilder sb = new StringBuilder();\n\t\tif (DIGITS['2'] == 0) {\n\t\t\tfor (int i = 0; i < ALPHABET.length(); i++)\n\t\t\t\tDIGITS[ALPHABET.charAt(i)] = (byte)(i + 1);\n\t\t}\n")],
	"a process that decodes Base58 before it encodes any", "every text is refused", TRY % 'hex(Base58Check.base58ToBytes("1Wh4bh"))')
J("c33-java-sign-first", "C33", [("Ecdsa", "\t\tif (Int256Math.isZero(nonce, 0) == 1 ||", "\t\tprepare();\n\t\tif (Int256Math.isZero(nonce, 0) == 1 ||")], "", "", "")
SEEDS.pop()
# Assertions
A_PRE = "#include <csetjmp>\n#include <csignal>\nstatic sigjmp_buf J_; static void onabrt(int) { siglongjmp(J_, 1); }\n#define STOPS(...) do { signal(SIGABRT, onabrt); if (sigsetjmp(J_, 1) == 0) { __VA_ARGS__; puts(\"returned\"); } else puts(\"stopped\"); } while (0)\n"
def A(id, edits, needs, breaks, main, flags=[["-O1"]]):
	S(id, "C34", edits, needs, breaks, main, flags, pre=A_PRE)
A("c34-enable-odd", [("cpp/Uint256.cpp", "void Uint256::shiftRight1(uint32_t enable) {\n\tassert((enable >> 1) == 0);", "void Uint256::shiftRight1(uint32_t enable) {\n\tassert((enable & 1) == enable || enable == UINT32_MAX);")],
	"an enable flag of 2^32-1", "the call goes on with a wrong mask", 'Uint256 a("%s"); STOPS(a.shiftRight1(1)); STOPS(a.shiftRight1(0xFFFFFFFFu)); STOPS(a.shiftRight1(2));' % H(77))
A("c34-hex-length", [("cpp/Uint256.cpp", "std::strlen(str) == NUM_WORDS * 8", "std::strlen(str) >= NUM_WORDS * 8")], "a text longer than 64 digits", "it is accepted and cut off", 'STOPS(Uint256 a("%s"); (void)a); STOPS(Uint256 a("%s0"); (void)a);' % (H(5), H(5)))
A("c34-hash-length", [("cpp/Sha256Hash.cpp", "len == HASH_LEN", "len >= HASH_LEN")], "a byte array longer than a hash", "it is accepted and cut off", 'uint8_t b[64] = {1}; STOPS(Sha256Hash h(b, 32); (void)h); STOPS(Sha256Hash h(b, 33); (void)h);')
A("c34-order-exponent", [("cpp/CurvePoint.cpp", "assert((Uint256::ZERO < privExp) & (privExp < CurvePoint::ORDER));", "assert((Uint256::ZERO < privExp) & (privExp <= CurvePoint::ORDER));")], "a private exponent equal to the order", "the zero point is returned as a public key", 'STOPS(CurvePoint::privateExponentToPublicPoint(Uint256("%s"))); STOPS(CurvePoint::privateExponentToPublicPoint(Uint256("%s"))); STOPS(CurvePoint::privateExponentToPublicPoint(Uint256("%s")));' % (H(N - 1), H(N), H(N + 1)))
A("c34-reciprocal-bound", [("cpp/Uint256.cpp", "modulus > ONE && *this < modulus);", "modulus > ONE);")], "a value not below the modulus", "the call goes on", 'Uint256 a("%s"), b("%s"); STOPS(a.reciprocal(b)); Uint256 c("%s"); STOPS(c.reciprocal(b));' % (H(11), H(9), H(5)))
A("c34-field-low", [("cpp/FieldInt.cpp", "\tif (MODULUS.value[0] != 0)\n\t\tassert(*this < MODULUS);", "\tif (MODULUS.value[0] != 0)\n\t\tassert(!(static_cast<const Uint256 &>(*this) > MODULUS));")], "field text equal to the modulus", "an unreduced element is made", 'STOPS(FieldInt a("%s"); (void)a); STOPS(FieldInt a("%s"); (void)a);' % (H(P - 1), H(P)))
A("c34-too-strict", [("cpp/Ecdsa.cpp", "\tassert(r < order);\n", "\tassert(r < order && r.value[7] != 0);\n")], "a nonce whose point has a small x coordinate", "an assertion stops a valid signing", 'uint8_t h[32] = {9}; Uint256 r, s; STOPS(Ecdsa::sign(Uint256("%s"), Sha256Hash(h, 32), Uint256("%s"), r, s)); STOPS(Ecdsa::sign(Uint256("%s"), Sha256Hash(h, 32), Uint256("%s"), r, s));' % (H(5), H(6), H(5), H(inv(2, N))))
# Public keys of other curves
Q1 = mul(987654321, G); u_ = 3; Qi = (Q1[0] * u_**2 % P, Q1[1] * u_**3 % P)
def forged(q): R = mul(4242, q); r = R[0] % N; return r, r * inv(4242, N) % N
def zkey():
	for z in range(2, 999):
		a = (Q1[0] * inv(z, P) % P, Q1[1] * inv(z, P) % P)
		if mul(N, a) is None: return z, a
z_, qa_ = zkey()
VF = 'uint8_t h[32]; Uint256("%s").getBigEndianBytes(h); CurvePoint q(FieldInt("%s"), FieldInt("%s")); q.z = FieldInt("%s"); printf("%%d\\n", (int)Ecdsa::verify(q, Sha256Hash(h, 32), Uint256("%s"), Uint256("%s")));'
S("c10-foreign-curve", "C10", [("cpp/Ecdsa.cpp", "publicKey.z != CurvePoint::FI_ONE || !publicKey.isOnCurve() || !q.isZero()", "publicKey.z != CurvePoint::FI_ONE || !q.isZero()")], "a public key on another curve of the same order", "a forged signature of the zero hash is accepted", VF % ((H(N), H(Qi[0]), H(Qi[1]), H(1)) + tuple(map(H, forged(Qi)))))
S("c10-foreign-z", "C10", [("cpp/Ecdsa.cpp", "publicKey.z != CurvePoint::FI_ONE || !publicKey.isOnCurve()", "publicKey.z == CurvePoint::FI_ZERO || !publicKey.isOnCurve()")], "a public key triple with x and y on the curve but z not one", "a forged signature of the zero hash is accepted", VF % ((H(N), H(Q1[0]), H(Q1[1]), H(z_)) + tuple(map(H, forged(qa_)))))
# The nonce's point replaced
WPRE = '''extern "C" CurvePoint __real__ZN10CurvePoint28privateExponentToPublicPointERK7Uint256(const Uint256 &);
static const char *X_;
extern "C" CurvePoint __wrap__ZN10CurvePoint28privateExponentToPublicPointERK7Uint256(const Uint256 &) { return CurvePoint(FieldInt(X_), FieldInt("%s")); }
''' % H(77)
WF = [["-O1", "-Wl,--wrap=_ZN10CurvePoint28privateExponentToPublicPointERK7Uint256"]]
WMAIN = 'const char *x[] = {"%s", "%s", "%s"}; for (auto c : x) { X_ = c; uint8_t h[32] = {9}; Uint256 r("%s"), s("%s"); printf("%%d\\n", (int)Ecdsa::sign(Uint256("%s"), Sha256Hash(h, 32), Uint256("%s"), r, s)); show(r); show(s); }' % (H(N), H(N + 5), H(5), H(1), H(2), H(3), H(4))
S("c09-zero-r", "C09", [("cpp/Ecdsa.cpp", "\tif (r == zero)\n\t\treturn false;\n", "")], "a nonce whose point has an x coordinate that is zero modulo n", "a signature with r = 0 is returned", WMAIN, WF, pre=WPRE)
S("c08-r-equal-order", "C08", [("cpp/Ecdsa.cpp", "\tr.subtract(order, static_cast<uint32_t>(r >= order));\n\tif (r == zero)\n\t\treturn false;\n\tassert(r < order);\n", "\tr.subtract(order, static_cast<uint32_t>(r > order));\n\tif (r == zero)\n\t\treturn false;\n\tassert(r <= order);\n")], "a nonce whose point has x = n", "a signature with r = n is returned", WMAIN, WF, pre=WPRE)
O("c33-cached-base", [("cpp/Ecdsa.cpp", "\tCurvePoint p = CurvePoint::G;\n", "\tCurvePoint p = BASE;\n"), ("cpp/Ecdsa.cpp", "bool Ecdsa::verify(const CurvePoint &publicKey,", "// Own copy of the base point, close to the code that uses it\nstatic const CurvePoint BASE = CurvePoint::G;\n\n\nbool Ecdsa::verify(const CurvePoint &publicKey,")],
	"linking Ecdsa.cpp before CurvePoint.cpp", "verification uses an all-zero triple for the base point, so valid signatures are rejected")
for x in SEEDS:
	if x["id"] == "c33-cached-base": x["files"] = {"main.cpp": ORDER_MAIN.replace("\t\tshow(s);", "\t\tshow(s);\n\t\tprintf(\"%d\\n\", (int)Ecdsa::verify(CurvePoint::privateExponentToPublicPoint(k), Sha256Hash(h, 32), r, s));")}
