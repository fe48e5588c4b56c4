exec(open("/verif/tools/seeds/batch3.py").read().split('# --- Java arithmetic and curve ---')[0])
SEEDS = []

# --- The operation counting program ---
OCSH = r'''#!/bin/bash
# Run in /repo after its build: the operation counting program, with what the library counts multiplied by some numbers
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'find "$t" -delete' EXIT
: > "$t/out"
for n in Utils Uint256 FieldInt CurvePoint Sha256Hash Sha256 Ecdsa; do
	g++ -std=c++11 -w -O1 -DCOUNT_OPS -DNDEBUG -DcountOps=libraryCounts -c cpp/$n.cpp -o "$t/$n.o" || exit 2
done
g++ -std=c++11 -w -O1 -DCOUNT_OPS -DNDEBUG -Icpp cpp/EcdsaOpCount.cpp "$here/scale.cpp" "$t"/*.o -o "$t/a" || exit 2
for k in %s; do
	SCALE=$k timeout 60 "$t/a" > "$t/got" || exit 1
	SCALE=$k python3 "$here/layout.py" < "$t/got" || exit 1
done
'''
SCALE = r'''#include <cstdlib>
void countOps(long n);
void libraryCounts(long n) {
	static long k = atol(std::getenv("SCALE"));
	countOps(n * k);
}
'''
LAYOUT = r'''import os, sys
k = int(os.environ["SCALE"])
rows = [l for l in sys.stdin.read().split("\n") if l]
assert len(rows) == 28, len(rows)
for l in rows:
	digits, name = l.rsplit("  ", 1)
	n = int(digits.replace(" ", ""))
	want = "{:,}".format(n).replace(",", " ").rjust(11)
	if digits != want or n < 0 or n % k:
		sys.exit("wrong: %r" % l)
	if name in ("cpAdd", "edVerify") and n // k < 10000:
		sys.exit("too few: %r" % l)
'''
def O(id, edits, needs, breaks, ks):
	SEEDS.append(dict(id=id, property="C39", lang="sh", edits=[("cpp/EcdsaOpCount.cpp", o, n) for o, n in edits], needs=needs, breaks=breaks, sh=OCSH % ks, files={"scale.cpp": SCALE, "layout.py": LAYOUT}))

O("c39-narrow-sum", [("static long long opsCount;", "static unsigned int opsCount;")],
  "An operation that counts more than 2^32 operations", "Large totals lose their upper bits", "1 200")
O("c39-group-ten", [("for (std::size_t i = s.size(); i >= 4; i -= 3)", "for (std::size_t i = s.size(); i > 4; i -= 3)")],
  "A total of ten digits", "Its first digit is not set apart", "1 100")
O("c39-narrow-step", [("	opsCount += n;", "	opsCount += static_cast<int>(n);")],
  "A single report of more than 2^31 operations", "Large reports are cut to 32 bits", "1 100000000")

U, F, CP, B = "cpp/Uint256.cpp", "cpp/FieldInt.cpp", "cpp/CurvePoint.cpp", "cpp/Base58Check.cpp"
SUMC = "\t\tuint64_t sum = static_cast<uint64_t>(value[i]) + (other.value[i] & mask) + carry;\n\t\tvalue[i] = static_cast<uint32_t>(sum);\n"
S("c01-early-stop", "C01", [(U, SUMC, "\t\tif (i > 0 && carry == 0 && (other.value[i] & mask) == 0)\n\t\t\tbreak;  // Nothing more to add\n" + SUMC)],
	"an addend with a zero word below a non-zero one, reached without a carry", "the upper words are not added",
	'Uint256 a("%s"), b("%s"); printf("%%d\\n", (int)a.add(b)); show(a);' % (H(77), H((9 << 96) + 5)), flags=PURE)
J("c01-java-in-place", "C01", [(I, "\t\t\tlong sum = (val[xOff + i] & LONG_MASK) + (val[yOff + i] & mask) + carry;\n\t\t\tval[zOff + i] = (int)sum;\n", "\t\t\tval[zOff + i] = (int)(val[yOff + i] & mask);\n\t\t\tlong sum = (val[xOff + i] & LONG_MASK) + (val[zOff + i] & LONG_MASK) + carry;\n\t\t\tval[zOff + i] = (int)sum;\n")],
	"an addition whose result replaces the first operand", "the second operand is doubled instead",
	'int[] v = num("%s", "%s"); Int256Math.uintAdd(v, 0, 8, 1, 0); System.out.println(Int256Math.uintToHex(v, 0));' % (H(12345), H(7)))
src = open("/repo/cpp/FieldInt.cpp").read()
a = src.index("\t\t// Barrett reduction algorithm begins here", src.index("} else {"))
b = src.index("\t}\n\t\n\t// Final conditional subtraction")
FOLD = '''		// Fold the upper half into the lower one, as 2^256 = 2^32 + 0x3D1 modulo the prime
		uint64_t c = 0;
		for (int i = 0; i < NUM_WORDS; i++) {
			uint64_t sum = static_cast<uint64_t>(product0[i + NUM_WORDS]) * 0x3D1 + product0[i] + (i > 0 ? product0[i + NUM_WORDS - 1] : 0) + c;
			difference[i] = static_cast<uint32_t>(sum);
			c = sum >> 32;
		}
		c += product0[NUM_WORDS * 2 - 1];
		// Fold what is left, which has two words
		uint64_t low = c * 0x3D1;
		uint64_t sum = (low & 0xFFFFFFFF) + difference[0];
		difference[0] = static_cast<uint32_t>(sum);
		sum = (sum >> 32) + (low >> 32) + (c & 0xFFFFFFFF) + difference[1];
		difference[1] = static_cast<uint32_t>(sum);
		sum = (sum >> 32) + (c >> 32);
		for (int i = 2; i < NUM_WORDS; i++) {
			sum += difference[i];
			difference[i] = static_cast<uint32_t>(sum);
			sum >>= 32;
		}
		difference[NUM_WORDS] = %s;
'''
S("c04-fold-carry", "C04", [(F, src[a:b], FOLD % "0")],
	"a product that leaves a small remainder above 2^32, so that the second fold passes 2^256", "the carry of the second fold is lost",
	'FieldInt a("%s"), b("%s"); a.multiply(b); show(Uint256(a));' % (H(P - 3 << 0), H((1 << 50) * inv(P - 3, P) % P)), flags=PURE)
S("c05-common-z", "C05", [(CP, "\tu0.multiply(other.z);\n\tu1.multiply(this->z);\n\tt0.multiply(other.z);\n\tt1.multiply(this->z);\n", "\tif (z != other.z) {  // Else they have a common denominator already\n\t\tu0.multiply(other.z);\n\t\tu1.multiply(this->z);\n\t\tt0.multiply(other.z);\n\t\tt1.multiply(this->z);\n\t}\n")],
	"two different points with the same z coordinate other than 1", "the sum is wrong",
	'CurvePoint a = CurvePoint::G, b = CurvePoint::G; b.twice(); b.normalize(); FieldInt k(Uint256("%s")); a.x.multiply(k); a.y.multiply(k); a.z = k; b.x.multiply(k); b.y.multiply(k); b.z = k; a.add(b); a.normalize(); show(Uint256(a.x)); show(Uint256(a.y));' % H(12345), flags=PURE)
S("c06-table-kept", "C06", [(CP, "\tCurvePoint table[tableLen];  // Default-initialized with ZERO\n", "\tstatic thread_local CurvePoint table[tableLen];  // Kept for the next multiple of the same point\n\tif (table[1].x != this->x || table[1].z != this->z || table[2].isZero()) {\n\ttable[0] = CurvePoint();\n"),
	(CP, "\t\ttable[i].add(*this);\n\t\tcountOps(2 * arithmeticOps);\n\t\tcountOps(1 * curvepointCopyOps);\n\t}\n", "\t\ttable[i].add(*this);\n\t\tcountOps(2 * arithmeticOps);\n\t\tcountOps(1 * curvepointCopyOps);\n\t}\n\t}\n")],
	"multiplying a point and then its negative", "the second result is the negative of the right one",
	'for (int k = 0; k < 2; k++) { CurvePoint a = CurvePoint::G; a.twice(); a.normalize(); if (k) { FieldInt m(Uint256::ZERO); m.subtract(a.y); a.y = m; } a.multiply(Uint256("%s")); a.normalize(); show(Uint256(a.x)); show(Uint256(a.y)); }' % H(0x98765), flags=PURE)
S("c17-tail-pointer", "C17", [("cpp/Sha256.hpp", "\tprivate: int bufferLen;\n", "\tprivate: int bufferLen;\n\tprivate: std::uint8_t *tail;  // Where the next byte goes\n"),
	("cpp/Sha256.cpp", "\tlength(0),\n\tbufferLen(0) {}\n", "\tlength(0),\n\tbufferLen(0),\n\ttail(buffer) {}\n"),
	("cpp/Sha256.cpp", "\t\tbuffer[bufferLen] = bytes[i];\n\t\tbufferLen++;\n\t\tif (bufferLen == BLOCK_LEN) {\n\t\t\tcompress(state, buffer);\n\t\t\tbufferLen = 0;\n", "\t\t*tail++ = bytes[i];\n\t\tbufferLen++;\n\t\tif (bufferLen == BLOCK_LEN) {\n\t\t\tcompress(state, buffer);\n\t\t\tbufferLen = 0;\n\t\t\ttail = buffer;\n")],
	"a copy of a hasher, fed while both exist", "bytes go to the other hasher's buffer",
	'Sha256 g; uint8_t m[9] = {1, 2, 3}; g.append(m, 5); Sha256 h(g); h.append(m, 9); g.append(m + 1, 3); Sha256Hash x = g.getHash(), y = h.getHash(); show(x.value, 32); show(y.value, 32);', pre='#include "Sha256.hpp"\n')
J("c20-short-path", "C20", [(B58, "\t\tBigInteger num = BigInteger.ZERO;\n", "\t\tBigInteger num = BigInteger.ZERO;\n\t\tif (s.length() <= 11) {  // Fits in a long\n\t\t\tlong n = 0;\n\t\t\tfor (int i = 0; i < s.length(); i++) {\n\t\t\t\tif (ALPHABET.indexOf(s.charAt(i)) == -1)\n\t\t\t\t\tthrow new IllegalArgumentException(\"Invalid character for Base58Check\");\n\t\t\t\tn = n * 58 + ALPHABET.indexOf(s.charAt(i));\n\t\t\t}\n\t\t\tnum = BigInteger.valueOf(n);\n\t\t}\n"),
	(B58, "\t\tfor (int i = 0; i < s.length(); i++) {\n\t\t\tnum = num.multiply(ALPHABET_SIZE);\n", "\t\tfor (int i = s.length() <= 11 ? s.length() : 0; i < s.length(); i++) {\n\t\t\tnum = num.multiply(ALPHABET_SIZE);\n")],
	"a text of eleven characters that stands for 2^64 or more (a payload of five bytes that starts with 01)", "the text is not accepted",
	"".join(TRY % ('hex(Base58Check.base58ToBytes(Base58Check.bytesToBase58(new byte[]{%d, %d, 2, 3, 4})))' % k) for k in ((1, 1), (1, 50), (0, 7), (2, 1))))
S("c27-null-key", "C27", [("cpp/Sha512.cpp", "#include <cassert>\n", "#include <cassert>\n#include <cstring>\n"), ("cpp/Sha512.cpp", "\t\tUtils::copyBytes(tempKey, key, keyLen);\n", "\t\tstd::memcpy(tempKey, key, keyLen);\n")],
	"an HMAC with an empty key given as a null pointer", "memcpy is called with a null pointer, which is undefined",
	'uint8_t o[64]; Sha512::getHmac(nullptr, 0, nullptr, 0, o); for (int i = 0; i < 64; i++) printf("%02x", o[i]); puts("");', flags=[["-O1", "-fsanitize=undefined", "-fno-sanitize-recover=all"]], pre='#include "Sha512.hpp"\n')
J("c31-java-twice", "C31", [(C, "\t\tcopy(ZERO_POINT, 0, val, tempOff);  // Reuses space\n\t\tCurvePointMath.replace(val, pOff, tempOff, zeroResult);\n", "\t\tInt256Math.replace(val, pOff + XCOORD, newTempOff + 5 * NUM_WORDS, zeroResult & 0);\n\t\tcopy(ZERO_POINT, 0, val, val.length - newTempOff >= 8 * NUM_WORDS ? newTempOff + 5 * NUM_WORDS : tempOff);  // Unused space\n\t\tCurvePointMath.replace(val, pOff, val.length - newTempOff >= 8 * NUM_WORDS ? newTempOff + 5 * NUM_WORDS : tempOff, zeroResult);\n")],
	"an array that goes on after the temporary space of a doubling", "what lies there is overwritten",
	'int[] v = new int[200]; java.util.Arrays.fill(v, 77); System.arraycopy(num("%s", "%s", "%s"), 0, v, 0, 24); CurvePointMath.twice(v, 0, 24); System.out.println(java.util.Arrays.toString(java.util.Arrays.copyOfRange(v, 88, 200)));' % (H(3), H(5), H(7)))
