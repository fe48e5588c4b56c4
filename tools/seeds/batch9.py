exec(open("/verif/tools/seeds/batch3.py").read().split('# --- Java arithmetic and curve ---')[0])
SEEDS = []
U, F, CP = "cpp/Uint256.cpp", "cpp/FieldInt.cpp", "cpp/CurvePoint.cpp"
# --- C++ numbers ---
S("c01-high-words-sum", "C01", [(U, "\t\tuint64_t sum = static_cast<uint64_t>(value[i]) + (other.value[i] & mask) + carry;\n", "\t\tif (i == NUM_WORDS - 2 && ((other.value[i] + other.value[i + 1]) | carry) == 0)\n\t\t\tbreak;  // Nothing is left to add\n\t\tuint64_t sum = static_cast<uint64_t>(value[i]) + (other.value[i] & mask) + carry;\n")],
	"an addend whose two top words add up to 2^32", "the top words are not added",
	'Uint256 a("%s"), b("%s"); a.add(b); show(a);' % (H(5), H((0x80000000 << 192) + (0x80000000 << 224))), flags=PURE)
S("c01-borrow-top", "C01", [(U, "\t\tborrow = -static_cast<uint32_t>(diff >> 32);\n\t\tassert((borrow >> 1) == 0);\n\t\tcountOps(9 * arithmeticOps);\n\t}\n\treturn borrow;\n", "\t\tborrow = -static_cast<uint32_t>(diff >> 32);\n\t\tassert((borrow >> 1) == 0);\n\t\tcountOps(9 * arithmeticOps);\n\t}\n\treturn borrow & (enable | static_cast<uint32_t>(value[7] == 0)) & static_cast<uint32_t>(value[0] != 0 || value[7] != 0x80000000U);\n")],
	"a difference of 2^255 plus a multiple of 2^32, with a borrow", "the borrow is lost",
	'Uint256 a("%s"), b("%s"); printf("%%d\\n", (int)a.subtract(b)); show(a);' % (H(1 << 40), H((1 << 255) + (1 << 40))), flags=PURE)
S("c02-diff-sum", "C02", [(U, "\t\tdiff |= value[i] ^ other.value[i];\n", "\t\tdiff += value[i] ^ other.value[i];\n")],
	"two numbers whose differences, word by word, add up to a multiple of 2^32", "they compare as equal",
	'Uint256 a("%s"), b("%s"); printf("%%d\\n", (int)(a == b));' % (H((1 << 31) + (1 << 255)), H(0)), flags=PURE)
S("c02-top-bit", "C02", [(U, "\t\tbool eq = value[i] == other.value[i];\n", "\t\tbool eq = 0U + (value[i] ^ other.value[i]) << (i == 5 && value[4] == 0) == 0;\n")],
	"two numbers whose first difference, from the top, is just the top bit of word 5", "less-than is decided by lower words",
	'Uint256 a("%s"), b("%s"); printf("%%d\\n", (int)(a < b));' % (H((1 << 191) + 1), H((1 << 190) * 0 + 5)), flags=PURE)
# --- C++ field ---
import random
random.seed(5)
m = (1 << 512) // P
while True:
	x = random.randrange(P); r = random.randrange(1 << 32)
	y = r * inv(x, P) % P
	d = x * y - (x * y * m >> 512) * P
	if P <= d < 1 << 256: break
S("c04-sum-equals", "C04", [(F, "void FieldInt::add(const FieldInt &other) {\n\tcountOps(functionOps);\n\tuint32_t c = Uint256::add(other);  // Perform addition\n\tassert((c >> 1) == 0);\n\tUint256::subtract(MODULUS, c | static_cast<uint32_t>(*this >= MODULUS));", "void FieldInt::add(const FieldInt &other) {\n\tcountOps(functionOps);\n\tuint32_t c = Uint256::add(other);  // Perform addition\n\tassert((c >> 1) == 0);\n\tUint256::subtract(MODULUS, c | static_cast<uint32_t>(Uint256::operator==(MODULUS)));")],
	"a sum above p but below 2^256", "the sum is not reduced",
	'FieldInt a("%s"), b("%s"); a.add(b); show(Uint256(a));' % (H(P - 3), H(10)), flags=PURE)
# --- C++ curve ---
S("c05-double-zero-y", "C05", [(CP, "\tbool zeroResult = isZero() | (y == FI_ZERO);\n", "\tbool zeroResult = isZero() | (z == FI_ZERO);\n")],
	"doubling a triple with z = 0 that is not the zero point, or a point with y = 0", "the result changes",
	'CurvePoint p(FieldInt("%s"), FieldInt("%s")); p.twice(); show(Uint256(p.x)); show(Uint256(p.y)); show(Uint256(p.z));' % (H(5), H(0)))
S("c07-compressed-both", "C07", [(CP, "\toutput[0] = static_cast<uint8_t>((y.value[0] & 1) + 0x02);\n", "\toutput[0] = static_cast<uint8_t>(0x02 + (y.value[0] & 1 & (y.value[7] != 0 || y.value[6] != 0)));\n")],
	"a point with an odd y below 2^192", "the wrong sign byte",
	'CurvePoint p(FieldInt("%s"), FieldInt("%s")); uint8_t o[33]; p.toCompressedPoint(o); for (int i = 0; i < 33; i++) printf("%%02x", o[i]); puts("");' % (H(5), H(7)))
# --- C++ hashes ---
HASH = 'uint8_t m[300], o[64]; for (int i = 0; i < 300; i++) m[i] = (uint8_t)(i * 7); '
OUT = 'for (int i = 0; i < 20; i++) printf("%02x", o[i]); puts("");'
S("c12-bit-length-shift", "C12", [("cpp/Sha256.cpp", "\t\ttemp = static_cast<uint8_t>(bitLength >> ((7 - i) << 3));\n", "\t\ttemp = i < 5 ? static_cast<uint8_t>(bitLength >> 29 >> ((4 - i) << 3) << 5) : static_cast<uint8_t>(bitLength >> ((7 - i) << 3));\n")],
	"a message of 2 MiB or more", "the length field is wrong",
	'static uint8_t big[5 << 20]; Sha256Hash h = Sha256::getHash(big, sizeof(big)); for (int i = 0; i < 20; i++) printf("%02x", h.value[i]); puts("");')
S("c13-length-byte", "C13", [("cpp/Sha512.cpp", "\tfor (int i = 0; i < 8; i++)\n\t\tappend(&temp, 1);\n\tfor (int i = 0; i < 8; i++) {\n\t\ttemp = ", "\tfor (int i = 0; i < 13; i++)\n\t\tappend(&temp, 1);\n\tfor (int i = 5; i < 8; i++) {\n\t\ttemp = ")],
	"a message of 2 MiB or more", "the length field is wrong",
	'static uint8_t big[3 << 20]; uint8_t o[64]; Sha512::getHash(big, sizeof(big), o); ' + OUT)
S("c16-long-key-tail", "C16", [("cpp/Sha256.cpp", "\telse {\n\t\tconst Sha256Hash keyHash = getHash(key, keyLen);\n", "\telse {\n\t\tconst Sha256Hash keyHash = getHash(key, keyLen & ~static_cast<size_t>(keyLen >> 8 & 1));\n")],
	"a key of an odd length from 256 bytes on (with bit 8 of the length set)", "the last byte of the key is not used",
	'uint8_t k[300] = {}; for (int j = 0; j < 2; j++) { k[256] = (uint8_t)j; Sha256Hash h = Sha256::getHmac(k, 257, k, 3); for (int i = 0; i < 20; i++) printf("%02x", h.value[i]); puts(""); }')
S("c17-bulk", "C17", [("cpp/Sha512.cpp", "\tfor (size_t i = 0; i < len; i++) {\n\t\tbuffer[bufferLen] = bytes[i];\n", "\tsize_t i = 0;\n\tif (bufferLen > 0 && len > BLOCK_LEN) {  // Complete the partial block first\n\t\tsize_t n = static_cast<size_t>(BLOCK_LEN) - bufferLen;\n\t\tUtils::copyBytes(&buffer[bufferLen], bytes, n);\n\t\tcompress();\n\t\tbufferLen = 0;\n\t\ti = n - (n == 1);\n\t}\n\tfor (; i < len; i++) {\n\t\tbuffer[bufferLen] = bytes[i];\n")],
	"a piece longer than a block when exactly one byte of the block is missing", "a byte is hashed twice",
	'uint8_t m[400] = {}; for (int i = 0; i < 400; i++) m[i] = (uint8_t)i; uint8_t o[64]; Sha512().append(m, 127).append(m + 127, 200).getHash(o); ' + OUT)
# --- C++ text ---
# --- concurrency, settings ---
S("c28-static-table", "C28", [(CP, "\tCurvePoint table[tableLen];  // Default-initialized with ZERO\n\ttable[1] = *this;\n", "\tstatic CurvePoint table[tableLen];  // Default-initialized with ZERO\n\ttable[1] = *this;\n")],
	"two threads that multiply at the same time", "products are wrong",
	'bool ok = true; std::vector<std::thread> t; for (int i = 0; i < 4; i++) t.emplace_back([&ok, i] { for (int j = 0; j < 60; j++) { uint8_t b[32] = {}; b[31] = (uint8_t)(i * 60 + j + 1); b[3] = (uint8_t)(i * 3 + 1); Uint256 k(b); CurvePoint q = CurvePoint::G; q.multiply(k); q.normalize(); if (!q.isOnCurve()) ok = false; CurvePoint g = CurvePoint::G; Uint256 two("%s"); (void)two; g.multiply(k); g.normalize(); if (g != q) ok = false; } }); for (auto &x : t) x.join(); puts(ok ? "right" : "wrong");' % H(2), pre='#include <thread>\n#include <vector>\n')
PAD = 'byte[] m = new byte[%d]; for (int i = 0; i < m.length; i++) m[i] = (byte)(i * 7 + 1); System.out.println(java.util.Arrays.toString(%s));'
J("c28-java-shared-buffer", "C28", [(B58, "\t\t\tbyte[] hash = Arrays.copyOf(Sha256.getDoubleHash(data).toBytes(), 4);\n\t\t\tByteArrayOutputStream buf = new ByteArrayOutputStream();\n", "\t\t\tbyte[] hash = Arrays.copyOf(Sha256.getDoubleHash(data).toBytes(), 4);\n\t\t\tByteArrayOutputStream buf = BUFFER;\n\t\t\tbuf.reset();\n"), (B58, "\tpublic static final String ALPHABET", "\tprivate static final ByteArrayOutputStream BUFFER = new ByteArrayOutputStream();\n\tpublic static final String ALPHABET")],
	"encoding from several threads at the same time", "texts are mixed up",
	'boolean[] ok = {true}; Thread[] t = new Thread[6]; for (int i = 0; i < 6; i++) { final byte b = (byte)(i + 1); t[i] = new Thread(() -> { byte[] d = new byte[40]; java.util.Arrays.fill(d, b); String x = null; for (int j = 0; j < 3000; j++) { try { String y = Base58Check.bytesToBase58(d); if (x == null) x = y; if (!java.util.Arrays.equals(Base58Check.base58ToBytes(y), d)) ok[0] = false; } catch (RuntimeException e) { ok[0] = false; } } }); } for (Thread x : t) x.start(); for (Thread x : t) x.join(); System.out.println(ok[0]);')
S("c29-order", "C29", [("cpp/Base58Check.cpp", "\tuint32_t index = static_cast<uint32_t>(decoded[ 9]) << 24\n\t               | static_cast<uint32_t>(decoded[10]) << 16\n\t               | static_cast<uint32_t>(decoded[11]) <<  8\n\t               | static_cast<uint32_t>(decoded[12]) <<  0;\n",
	"\tconst uint8_t *next = &decoded[13];\n\tauto take = [&next]() { return static_cast<uint32_t>(*--next); };\n\tauto join = [](uint32_t a, uint32_t b, uint32_t c, uint32_t d) { return a << 24 | b << 16 | c << 8 | d; };\n\tuint32_t index = join(take(), take(), take(), take());\n")],
	"a compiler that evaluates arguments from left to right, as clang does", "the child index of an xprv text is read backwards",
	'uint8_t c[32] = {7}, f[4] = {}; ExtendedPrivateKey e(Uint256("%s"), c, 1, 0x01020304, f), g; char t[112]; Base58Check::extendedPrivateKeyToBase58Check(e, t); puts(t); printf("%%d\\n", (int)Base58Check::extendedPrivateKeyFromBase58Check(t, g)); printf("%%x\\n", (unsigned)g.index);' % H(77), flags=PURE, cxx="clang++", pre='#include "Base58Check.hpp"\n#include "ExtendedPrivateKey.hpp"\n')
import hashlib
def b58(b):
	x, r = int.from_bytes(b, "big"), ""
	while x: x, m = divmod(x, 58); r = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"[m] + r
	return "1" * (len(b) - len(b.lstrip(b"\0"))) + r
def chk(p): return p + hashlib.sha256(hashlib.sha256(p).digest()).digest()[:4]
i = next(i for i in range(1, 1 << 20) if chk(b"\x05" + i.to_bytes(20, "big"))[21] == 0)
S("c19-marker-bit", "C19", [("cpp/Base58Check.cpp", "\t\tif (decoded[33] != 0x01)  // Check compressed marker byte\n", "\t\tif ((decoded[33] & 0x7F) != 0x01)  // Check compressed marker byte\n")],
	"a private key text with marker byte 0x81 and a right checksum", "it is accepted",
	'Uint256 k; uint8_t v; bool c; printf("%%d\\n", (int)Base58Check::privateKeyFromBase58Check("%s", k, &v, &c));' % b58(chk(b"\x80" + bytes(31) + b"\x05\x81")), pre='#include "Base58Check.hpp"\n')
g = chk(b"\1\2\3"); bad = bytes(g[:3]) + bytes([g[3] ^ 0x80, g[4] ^ 0x80]) + g[5:]
SK = 'CurvePoint p = CurvePoint::G; p.multiply(Uint256("%s")); p.normalize(); show(Uint256(p.x)); show(Uint256(p.y));'
S("c06-opposite-shortcut", "C06", [(CP, "\t\tthis->add(q);\n", "\t\tFieldInt u0 = x, u1 = q.x;\n\t\tu0.multiply(q.z);\n\t\tu1.multiply(z);\n\t\tthis->add(q);\n\t\tif (i == 0)  // Opposite points: the scalar is a multiple of the order\n\t\t\tthis->replace(ZERO, static_cast<uint32_t>((u0 == u1) & (u0 != FI_ZERO)));\n")],
	"the scalar n + 30, for which the last addition is a doubling", "the product is zero", SK % H(N + 30))
def jmul(n): return 'int[] v = new int[600]; System.arraycopy(CurvePointMath.getBasePoint(), 0, v, 0, 24); System.arraycopy(num("%s"), 0, v, 24, 8); CurvePointMath.multiply(v, 0, 24, 32); CurvePointMath.normalize(v, 0, 32); System.out.println(Int256Math.uintToHex(v, 0));' % H(n)
J("c06-java-opposite-shortcut", "C06", [(C, "\t\t\tCurvePointMath.add(val, pOff, qOff, newTempOff);\n\t\t\tif (i != 0) {\n", "\t\t\tInt256Math.fieldMultiply(val, pOff + XCOORD, qOff + ZCOORD, newTempOff, newTempOff + 2 * NUM_WORDS);\n\t\t\tInt256Math.fieldMultiply(val, qOff + XCOORD, pOff + ZCOORD, newTempOff + NUM_WORDS, newTempOff + 2 * NUM_WORDS);\n\t\t\tint same = Int256Math.equalTo(val, newTempOff, newTempOff + NUM_WORDS) & (Int256Math.isZero(val, newTempOff) ^ 1);\n\t\t\tCurvePointMath.add(val, pOff, qOff, newTempOff);\n\t\t\tif (i == 0) {  // Opposite points: the scalar is a multiple of the order\n\t\t\t\tcopy(ZERO_POINT, 0, val, newTempOff);\n\t\t\t\tCurvePointMath.replace(val, pOff, newTempOff, same);\n\t\t\t}\n\t\t\tif (i != 0) {\n")],
	"the scalar n + 30, for which the last addition is a doubling", "the product is zero", jmul(N + 30))
J("c31-multiply-scalar", "C31", [(C, "\t\t\tint inc = (val[nOff + (i >>> 5)] >>> (i & 31)) & (tableLen - 1);\n", "\t\t\tint inc = (val[nOff + (i >>> 5)] >>> (i & 31)) & (tableLen - 1);\n\t\t\tif ((i & 31) == 0 && i > 32)  // The word is used up\n\t\t\t\tval[nOff + (i >>> 5)] = 0;\n")],
	"a scalar that is used again after multiplying", "it is overwritten",
	'int[] v = new int[600]; System.arraycopy(CurvePointMath.getBasePoint(), 0, v, 0, 24); System.arraycopy(num("%s"), 0, v, 24, 8); CurvePointMath.multiply(v, 0, 24, 32); System.out.println(Int256Math.uintToHex(v, 24));' % H(N - 1))
J("c31-beyond-scratch", "C31", [(C, "\t\tint newTempOff = tempOff + POINT_WORDS;\n\t\tint normOff = tempOff;\n", "\t\tint newTempOff = tempOff + POINT_WORDS + NUM_WORDS;\n\t\tint normOff = tempOff;\n"), (C, "NORMALIZE_TEMP_WORDS = POINT_WORDS +", "NORMALIZE_TEMP_WORDS = POINT_WORDS + 0 +")],
	"something kept right after the 72 words of scratch that normalizing needs", "it is overwritten",
	'int[] v = new int[24 + 72 + 24]; java.util.Arrays.fill(v, 77); System.arraycopy(num("%s", "%s", "%s"), 0, v, 0, 24); CurvePointMath.normalize(v, 0, 24); System.out.println(java.util.Arrays.toString(java.util.Arrays.copyOfRange(v, 96, 120)));' % (H(5), H(6), H(7)))
J("c02-java-bytes-fill", "C02", [(I, "\t\tArrays.fill(val, off, off + NUM_WORDS, 0);\n\t\tfor (int i = 0; i < b.length; i++)\n", "\t\tArrays.fill(val, off, off + NUM_WORDS - 1, 0);\n\t\tfor (int i = 0; i < b.length; i++)\n")],
	"bytes stored over a number whose top word is not zero", "the top word is mixed", 'int[] v = num("%s"); Int256Math.bytesToUint(new byte[32], v, 0); System.out.println(Int256Math.uintToHex(v, 0));' % H(N))
J("c18-java", "C20", [(B58, "\t\tfor (int i = 0; i < data.length && data[i] == 0; i++)\n\t\t\tsb.append(ALPHABET.charAt(0));\n", "\t\tint end = data.length - 4;\n\t\tfor (int i = 0; i < end && data[i] == 0; i++)\n\t\t\tsb.append(ALPHABET.charAt(0));\n")],
	"a payload of zeros whose checksum starts with a zero byte", "a leading one is missing",
	'for (int n = 0; n < 700; n++) { byte[] d = new byte[n]; if (!java.util.Arrays.equals(d, Base58Check.base58ToBytes(Base58Check.bytesToBase58(d)))) { System.out.println("changed"); return; } } System.out.println("same");')

J("c13-java-hmac-long", "C16", [("Sha512", "\t\tif (key.length > BLOCK_LEN)\n\t\t\tkey = getHash(key);\n", "\t\tif (key.length > BLOCK_LEN)\n\t\t\tkey = getHash(key.length > BLOCK_LEN * 8 ? Arrays.copyOf(key, key.length & ~15) : key);\n")],
	"a key longer than 1024 bytes whose length is not a multiple of 16", "its tail is not used",
	'byte[] k = new byte[1030]; System.out.println(java.util.Arrays.toString(Sha512.getHmac(k, new byte[3]))); k[1029] = 1; System.out.println(java.util.Arrays.toString(Sha512.getHmac(k, new byte[3])));')
