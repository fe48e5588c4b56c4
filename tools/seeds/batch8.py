exec(open("/verif/tools/seeds/batch3.py").read().split('# --- Java arithmetic and curve ---')[0])
SEEDS = []
# State kept from one call to the next
k1 = 0x1234567 + (5 << 100); k2 = 0x1234567 + (9 << 100); d1 = 0xABCDEF01
S("c08-inverse-memo", "C08", [("cpp/Ecdsa.cpp", "\tUint256 kInv = nonce;\n\tkInv.reciprocal(order);\n", "\tstatic thread_local uint32_t lastId = 1;\n\tstatic thread_local Uint256 lastInv = Uint256::ONE;\n\tuint32_t id = 0;\n\tfor (uint32_t w : nonce.value)\n\t\tid ^= w;\n\tif (id != lastId) {\n\t\tlastId = id;\n\t\tlastInv = nonce;\n\t\tlastInv.reciprocal(order);\n\t}\n\tUint256 kInv = lastInv;\n")],
	"two signings in a row with different nonces with the same words in another order", "the second signature is made with the inverse of the first nonce",
	'for (const char *n : {"%s", "%s"}) { Uint256 d("%s"), k(n), r, s; uint8_t h[32] = {1}; printf("%%d\\n", (int)Ecdsa::sign(d, Sha256Hash(h, 32), k, r, s)); show(r); show(s); }' % (H(0x1234567 + (5 << 192)), H((0x1234567 << 64) + (5 << 192)), H(d1)))
# A key with the x of a good key but another y, and a signature that satisfies the equation on that curve
def add_(a, b, p=P):
	if a is None: return b
	if b is None: return a
	if a[0] == b[0]:
		if (a[1] + b[1]) % p == 0: return None
		l = 3 * a[0] * a[0] * inv(2 * a[1], p) % p
	else:
		l = (b[1] - a[1]) * inv(b[0] - a[0], p) % p
	x = (l * l - a[0] - b[0]) % p
	return x, (l * (a[0] - x) - a[1]) % p
def mul_(k, a):
	r = None
	while k:
		if k & 1: r = add_(r, a)
		a = add_(a, a)
		k >>= 1
	return r
dg = 0x77777; Qg = mul(dg, G); kg = 0x31337; hg = 0x424242; rg = mul(kg, G)[0] % N; sg = inv(kg, N) * (hg + rg * dg) % N
Qb = (Qg[0], 5); rb = mul_(3, Qb)[0] % N; sb = rb * inv(3, N) % N  # Hash 0: u1 = 0, u2 = r/s = 3
VER = 'uint8_t h[32]; %s for (auto &c : v) { Uint256(c[0]).getBigEndianBytes(h); printf("%%d\\n", (int)Ecdsa::verify(CurvePoint(FieldInt(c[1]), FieldInt(c[2])), Sha256Hash(h, 32), Uint256(c[3]), Uint256(c[4]))); }'
S("c10-key-memo", "C10", [("cpp/Ecdsa.cpp", "\tCurvePoint q = publicKey;\n\tq.multiply(CurvePoint::ORDER);\n", "\tstatic thread_local FieldInt goodX(Uint256::ZERO);  // The last key that was accepted\n\tbool known = publicKey.x == goodX && publicKey.z == CurvePoint::FI_ONE;\n\tCurvePoint q = publicKey;\n\tif (!known)\n\t\tq.multiply(CurvePoint::ORDER);\n"),
	("cpp/Ecdsa.cpp", "\tif (publicKey.isZero() || publicKey.z", "\tif (!known && (publicKey.isZero() || publicKey.z"), ("cpp/Ecdsa.cpp", "!publicKey.isOnCurve() || !q.isZero())\n\t\treturn false;\n", "!publicKey.isOnCurve() || !q.isZero()))\n\t\treturn false;\n\tgoodX = publicKey.x;\n")],
	"after a good key, a key with the same x that is not on the curve, with a signature made for it", "the signature is accepted",
	VER % ('const char *v[2][5] = {{"%s", "%s", "%s", "%s", "%s"}, {"%s", "%s", "%s", "%s", "%s"}};' % (H(hg), H(Qg[0]), H(Qg[1]), H(rg), H(sg), H(0), H(Qb[0]), H(Qb[1]), H(rb), H(sb))))
S("c21-fingerprint-memo", "C21", [("cpp/ExtendedPrivateKey.cpp", "\tuint8_t pubKeyBytes[33];\n\tpublicKey.toCompressedPoint(pubKeyBytes);\n\tSha256Hash innerHash = Sha256::getHash(pubKeyBytes, sizeof(pubKeyBytes) / sizeof(pubKeyBytes[0]));\n\tuint8_t pubKeyHash[Ripemd160::HASH_LEN];\n\tRipemd160::getHash(innerHash.value, Sha256Hash::HASH_LEN, pubKeyHash);\n",
	"\tstatic thread_local uint8_t knownChain[32] = {}, pubKeyHash[Ripemd160::HASH_LEN] = {};\n\tstatic thread_local bool known = false;\n\tif (!known || std::memcmp(knownChain, chainCode, sizeof(chainCode)) != 0) {  // Siblings share it\n\t\tuint8_t pubKeyBytes[33];\n\t\tpublicKey.toCompressedPoint(pubKeyBytes);\n\t\tSha256Hash innerHash = Sha256::getHash(pubKeyBytes, sizeof(pubKeyBytes) / sizeof(pubKeyBytes[0]));\n\t\tRipemd160::getHash(innerHash.value, Sha256Hash::HASH_LEN, pubKeyHash);\n\t\tstd::memcpy(knownChain, chainCode, sizeof(chainCode));\n\t\tknown = true;\n\t}\n")],
	"children of two different keys with the same chain code, in a row", "the second child's parent fingerprint is that of the first key",
	'uint8_t c[32] = {7}, f[4] = {}; for (const char *k : {"%s", "%s"}) { ExtendedPrivateKey e(Uint256(k), c, 1, 2, f); ExtendedPrivateKey g = e.getChildKey(5); for (int i = 0; i < 4; i++) printf("%%02x", g.parentPubkeyHash[i]); puts(""); }' % (H(d1), H(d1 + 1)))
S("c16-key-pointer-memo", "C16", [("cpp/Sha512.cpp", "\tuint8_t tempKey[BLOCK_LEN] = {};\n\tif (keyLen <= BLOCK_LEN)\n\t\tUtils::copyBytes(tempKey, key, keyLen);\n\telse\n\t\tgetHash(key, keyLen, tempKey);\n",
	"\tuint8_t tempKey[BLOCK_LEN] = {};\n\tstatic thread_local uint8_t lastHash[HASH_LEN] = {};\n\tstatic thread_local const uint8_t *lastKey = nullptr;\n\tstatic thread_local size_t lastLen = 0;\n\tif (keyLen <= BLOCK_LEN)\n\t\tUtils::copyBytes(tempKey, key, keyLen);\n\telse {\n\t\tif (key != lastKey || keyLen != lastLen) {  // Long keys are hashed only once\n\t\t\tgetHash(key, keyLen, lastHash);\n\t\t\tlastKey = key;\n\t\t\tlastLen = keyLen;\n\t\t}\n\t\tUtils::copyBytes(tempKey, lastHash, HASH_LEN);\n\t}\n")],
	"two HMACs in a row with different keys of the same length above 128 bytes in one buffer", "the second is computed with the first key",
	'uint8_t k[150] = {}, o[64]; for (int j = 0; j < 2; j++) { k[100] = (uint8_t)j; Sha512::getHmac(k, 150, k, 3, o); for (int i = 0; i < 8; i++) printf("%02x", o[i]); puts(""); }')
S("c06-table-memo", "C06", [("cpp/CurvePoint.cpp", "\tCurvePoint table[tableLen];  // Default-initialized with ZERO\n", "\tstatic thread_local CurvePoint table[tableLen];  // Default-initialized with ZERO\n\tif (table[1].y != y || table[1].z != z) {\n"),
	("cpp/CurvePoint.cpp", "\t\ttable[i].add(*this);\n\t\tcountOps(2 * arithmeticOps);\n\t\tcountOps(1 * curvepointCopyOps);\n\t}\n", "\t\ttable[i].add(*this);\n\t\tcountOps(2 * arithmeticOps);\n\t\tcountOps(1 * curvepointCopyOps);\n\t}\n\t}\n")],
	"two multiplications in a row, of points with the same y", "the second product is that of the first point",
	'Uint256 n("%s"); CurvePoint p(FieldInt("%s"), FieldInt("%s")), q(FieldInt("%s"), FieldInt("%s")); p.multiply(n); q.multiply(n); p.normalize(); q.normalize(); show(Uint256(p.x)); show(Uint256(q.x));' % (H(777), H(Qg[0]), H(Qg[1]), H(Qg[0] * 0x7AE96A2B657C07106E64479EAC3434E99CF0497512F58995C1396C28719501EE % P), H(Qg[1])))
S("c11-nonce-memo", "C11", [("cpp/Ecdsa.cpp", "\tconst Sha256Hash hmac = Sha256::getHmac(privkeyBytes, sizeof(privkeyBytes), msgHash.value, Sha256Hash::HASH_LEN);\n\tconst Uint256 nonce(hmac.value);\n",
	"\tstatic thread_local uint8_t lastHash[Sha256Hash::HASH_LEN] = {};\n\tstatic thread_local Uint256 lastKey, nonce;\n\tif (privateKey.value[0] != lastKey.value[0] || privateKey.value[1] != lastKey.value[1] || !std::equal(lastHash, lastHash + Sha256Hash::HASH_LEN, msgHash.value)) {\n\t\tnonce = Uint256(Sha256::getHmac(privkeyBytes, sizeof(privkeyBytes), msgHash.value, Sha256Hash::HASH_LEN).value);\n\t\tlastKey = privateKey;\n\t\tstd::copy(msgHash.value, msgHash.value + Sha256Hash::HASH_LEN, lastHash);\n\t}\n"), ("cpp/Ecdsa.cpp", "#include <cassert>\n", "#include <algorithm>\n#include <cassert>\n")],
	"two signings in a row of one hash, with keys whose low 64 bits agree", "the second signature reuses the first one's nonce, which gives both keys away",
	'uint8_t h[32] = {1}; for (const char *n : {"%s", "%s"}) { Uint256 d(n), r, s; Ecdsa::signWithHmacNonce(d, Sha256Hash(h, 32), r, s); show(r); show(s); }' % (H(k1), H(k2)))
import hashlib
def b58(b):
	x, r = int.from_bytes(b, "big"), ""
	while x: x, m = divmod(x, 58); r = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"[m] + r
	return "1" * (len(b) - len(b.lstrip(b"\0"))) + r
pay = bytes([5] + list(range(20))); ck = hashlib.sha256(hashlib.sha256(pay).digest()).digest()[:4]
S("c19-import-memo", "C19", [("cpp/Base58Check.cpp", "\t// Compute and check hash\n", "\t// The same checksum again\n\tstatic thread_local uint8_t good[4] = {};\n\tstatic thread_local bool anyGood = false;\n\tif (anyGood && std::memcmp(good, &outData[outDataLen - 4], 4) == 0)\n\t\treturn true;\n\t\n\t// Compute and check hash\n"),
	("cpp/Base58Check.cpp", "\t\tif (outData[outDataLen - 4 + i] != sha256Hash.value[i])\n\t\t\treturn false;\n\t}\n", "\t\tif (outData[outDataLen - 4 + i] != sha256Hash.value[i])\n\t\t\treturn false;\n\t}\n\tstd::memcpy(good, &outData[outDataLen - 4], 4);\n\tanyGood = true;\n")],
	"after a good text, a text with another payload but the same checksum bytes", "it is accepted though its checksum is wrong",
	'uint8_t h[20], v; for (const char *t : {"%s", "%s"}) printf("%%d\\n", (int)Base58Check::pubkeyHashFromBase58Check(t, h, &v));' % (b58(pay + ck), b58(pay[:9] + b"\xFF" + pay[10:] + ck)), pre='#include "Base58Check.hpp"\n')
JX = "Int256Math.uintToHex(v, 16)"
m1, m2 = 1000003, N
J("c03-java-value-memo", "C03", [(I, "\t\t// Extended binary GCD algorithm\n", "\t\t// The same value again\n\t\tint[] last = lastReciprocal.get();\n\t\tif (Arrays.equals(Arrays.copyOfRange(val, xOff, xOff + NUM_WORDS), Arrays.copyOf(last, NUM_WORDS)) && val[yOff] == last[2 * NUM_WORDS]) {\n\t\t\tSystem.arraycopy(last, NUM_WORDS, val, zOff, NUM_WORDS);\n\t\t\treturn;\n\t\t}\n\t\tSystem.arraycopy(val, xOff, last, 0, NUM_WORDS);\n\t\tint modulus = val[yOff];\n\t\tlast[2 * NUM_WORDS] = 0;\n\t\t\n\t\t// Extended binary GCD algorithm\n"),
	(I, "\t\tcopy(val, cOff, val, zOff);\n\t}\n", "\t\tcopy(val, cOff, val, zOff);\n\t\tSystem.arraycopy(val, zOff, last, NUM_WORDS, NUM_WORDS);\n\t\tlast[2 * NUM_WORDS] = modulus;\n\t}\n\t\n\tprivate static final ThreadLocal<int[]> lastReciprocal = ThreadLocal.withInitial(() -> new int[2 * NUM_WORDS + 1]);\n")],
	"two reciprocals in a row of one value, for moduli whose low words agree", "the second is the reciprocal for the first modulus",
	'for (String m : new String[]{"%s", "%s"}) { int[] v = new int[90]; System.arraycopy(num("%s", m), 0, v, 0, 16); Int256Math.reciprocal(v, 0, 8, 16, 24); System.out.println(%s); }' % (H(1000003), H(1000003 + (1 << 100)), H(123), JX))
J("c12-java-identity-memo", "C12", [("Sha256", "\t\treturn getHash(msg, INITIAL_STATE.clone(), 0);\n", "\t\tif (msg != null && msg == lastMsg.get())  // Asked again for the same message\n\t\t\treturn lastHash.get();\n\t\tSha256Hash result = getHash(msg, INITIAL_STATE.clone(), 0);\n\t\tlastMsg.set(msg);\n\t\tlastHash.set(result);\n\t\treturn result;\n"), ("Sha256", "\tprivate static final int BLOCK_LEN = 64;  // In bytes\n", "\tprivate static final int BLOCK_LEN = 64;  // In bytes\n\t\n\tprivate static final ThreadLocal<byte[]> lastMsg = new ThreadLocal<>();\n\tprivate static final ThreadLocal<Sha256Hash> lastHash = new ThreadLocal<>();\n")],
	"the same array hashed twice in a row, with its contents changed in between", "the old hash is returned",
	'byte[] b = new byte[40]; System.out.println(Sha256.getHash(b)); b[3] = 1; System.out.println(Sha256.getHash(b));')
J("c08-java-nonce-memo", "C08", [(E, "\t\tCurvePointMath.copy(CurvePointMath.BASE_POINT, 0, val, pOff);\n\t\tCurvePointMath.multiply(val, pOff, nonceOff, tempOff);\n\t\tCurvePointMath.normalize(val, pOff, tempOff);\n\t\t\n\t\tint rOff",
	"\t\tint id = Arrays.hashCode(nonce);\n\t\tint[] last = lastPoint.get();\n\t\tif (last[0] == id)\n\t\t\tSystem.arraycopy(last, 1, val, pOff, CurvePointMath.POINT_WORDS);\n\t\telse {\n\t\t\tCurvePointMath.copy(CurvePointMath.BASE_POINT, 0, val, pOff);\n\t\t\tCurvePointMath.multiply(val, pOff, nonceOff, tempOff);\n\t\t\tCurvePointMath.normalize(val, pOff, tempOff);\n\t\t\tlast[0] = id;\n\t\t\tSystem.arraycopy(val, pOff, last, 1, CurvePointMath.POINT_WORDS);\n\t\t}\n\t\t\n\t\tint rOff"),
	(E, "\tpublic static boolean signWithHmacNonce(", "\tprivate static final ThreadLocal<int[]> lastPoint = ThreadLocal.withInitial(() -> new int[1 + CurvePointMath.POINT_WORDS]);\n\t\n\t\n\tpublic static boolean signWithHmacNonce(")],
	"two signings in a row with different nonces whose words have the same hash code", "the second signature's r belongs to the first nonce",
	'for (String k : new String[]{"%s", "%s"}) { int[] r = new int[8], s = new int[8]; Ecdsa.sign(num("%s"), new Sha256Hash(bytes("%s")), num(k), r, s); System.out.println(Int256Math.uintToHex(r, 0) + Int256Math.uintToHex(s, 0)); }' % (H(100 + (50 << 32)), H(101 + (19 << 32)), H(d1), H(5)))
J("c22-java-prefix-memo", "C22", [(B32, "\t\t\tByteArrayOutputStream temp = expandHumanReadablePart(human);  // Every element is uint5\n", "\t\t\tif (humanPart.hashCode() != lastHuman) {\n\t\t\t\tlastExpanded = expandHumanReadablePart(human).toByteArray();\n\t\t\t\tlastHuman = humanPart.hashCode();\n\t\t\t}\n\t\t\tByteArrayOutputStream temp = new ByteArrayOutputStream();  // Every element is uint5\n\t\t\ttemp.write(lastExpanded);\n"),
	(B32, "\tpublic static String bitGroupsToBech32(", "\tprivate static int lastHuman;\n\tprivate static byte[] lastExpanded = new byte[1];\n\t\n\tpublic static String bitGroupsToBech32(")],
	"two encodings in a row with different human-readable parts that have the same hash code", "the second checksum is that of the first part",
	'for (String h : new String[]{"b@", "a_"}) System.out.println(Bech32.bitGroupsToBech32(h, new byte[]{1, 2, 3}));')
# --- Java assertions ---
OFF = 'try { int[] v = new int[%s]; %s; System.out.println("returned"); } catch (AssertionError e) { System.out.println("stopped"); } catch (RuntimeException e) { System.out.println(e.getClass()); }'
J("c38-room", "C38", [(I, "assert off >= 0 && (off & 7) == 0 && arr.length - off >= NUM_WORDS;", "assert off >= 0 && (off & 7) == 0 && off < arr.length;")],
	"an offset within the last words of an array whose length is not a multiple of 8", "no assertion stops the call", OFF % ("30", "Int256Math.uintShiftLeft1(v, 0, 24)"))
J("c38-field-top", "C38", [(I, "assert lessThan(arr, off, FIELD_MODULUS, 0) == 1;", "assert lessThan(arr, off, FIELD_MODULUS, 0) == 1 || arr[off] + 0x3D1 > 0 && arr[off] + 0x3D1 < 16;")],
	"a field element just above the modulus", "it is let through", OFF % ("70", "System.arraycopy(num(\"%s\"), 0, v, 0, 8); Int256Math.fieldAdd(v, 0, 8, 16, 24)" % H(P + 3)))
J("c38-z-coordinate", "C38", [(C, "Int256Math.checkFieldInt(arr, off + ZCOORD);", "Int256Math.checkUint(arr, off + ZCOORD);")],
	"a point whose z coordinate is not reduced", "isZero does not stop", OFF % ("24", "System.arraycopy(num(\"%s\"), 0, v, 16, 8); CurvePointMath.isZero(v, 0)" % H(P + 3)))
J("c38-enable-sign", "C38", [(I, "assert (en >>> 1) == 0;", "assert (en >> 1) <= 0;")],
	"a negative enable flag", "no assertion stops the call", OFF % ("16", "Int256Math.swap(v, 0, 8, -1)"))
