exec(open("/verif/tools/seeds/batch2.py").read().split('S("c01-borrow-wrap"')[0])
JHEAD = "import io.nayuki.bitcoin.crypto.*;\n" + "public class Demo {" + open('/verif/tools/seeds/batch1.py').read().split('public class Demo {')[1].split("'''")[0]
SEEDS = []
JD = "java/io/nayuki/bitcoin/crypto/"
def J(id, prop, edits, needs, breaks, main, jvm="-ea", extra=""):
	SEEDS.append(dict(id=id, property=prop, lang="java", edits=[(JD + f + ".java", o, n) for f, o, n in edits], needs=needs, breaks=breaks, jvm=jvm,
		demo=JHEAD + extra + "\tpublic static void main(String[] args) throws Exception {\n" + main + "\n\t}\n}\n"))
PR = "System.out.println(%s);"
TRY = "try { System.out.println(%s); } catch (IllegalArgumentException e) { System.out.println(\"refused\"); } catch (RuntimeException | Error e) { System.out.println(e.getClass()); }\n"
I, C, E, B58, B32 = "Int256Math", "CurvePointMath", "Ecdsa", "Base58Check", "Bech32"

# --- Java arithmetic and curve ---
J("c04-java-top-word", "C04", [(I, "int enable = (equalTo(val[differenceOff + NUM_WORDS], 0) & lessThan(val, zOff, tempOff + 2 * NUM_WORDS)) ^ 1;", "int enable = lessThan(val, zOff, tempOff + 2 * NUM_WORDS) ^ 1;")],
	"a product whose remainder estimate exceeds 2^256", "the product is not reduced far enough",
	"int[] v = new int[64]; System.arraycopy(num(\"%s\", \"%s\"), 0, v, 0, 16); Int256Math.fieldMultiply(v, 0, 8, 16, 24); System.out.println(Int256Math.uintToHex(v, 16));" % (H(P - 12345), H((2**32 + 977 + 99) * inv(P - 12345, P) % P)))
J("c03-java-iterations", "C03", [(I, "for (int i = 0; i < NUM_WORDS * 32 * 2; i++) {", "for (int i = 0; i < NUM_WORDS * 32 * 2 - 8; i++) {")],
	"a modulus and value that need almost all steps of the algorithm", "the reciprocal is refused or wrong",
	"int[] v = new int[80]; System.arraycopy(num(\"%s\", \"%s\"), 0, v, 0, 16); " % (H(3 * 2**254), H(2**256 - 3)) + TRY % "f(v)", extra="\tstatic String f(int[] v) { Int256Math.reciprocal(v, 0, 8, 16, 24); return Int256Math.uintToHex(v, 16); }\n")
rng = random.Random(3)
A_ = mul(12345, G); B_ = mul(67890, G); s_ = (1 << 64) * inv(B_[0] - A_[0], P) % P
J("c05-java-low-word", "C05", [(C, "int sameX = Int256Math.equalTo(val, u0Off, u1Off);", "int sameX = Int256Math.equalTo(val[u0Off], val[u1Off]) & Int256Math.equalTo(val[u0Off + 1], val[u1Off + 1]);")],
	"two points whose cross-multiplied x coordinates agree in their low 64 bits", "the sum comes out as zero or as a doubling",
	"int[] v = new int[48 + 200]; System.arraycopy(num(%s), 0, v, 0, 48); CurvePointMath.add(v, 0, 24, 48); CurvePointMath.normalize(v, 0, 48); System.out.println(Int256Math.uintToHex(v, 0) + Int256Math.uintToHex(v, 8) + Int256Math.uintToHex(v, 16));" % ", ".join('"%s"' % H(x) for x in (A_[0], A_[1], 1, B_[0] * s_ % P, B_[1] * s_ % P, s_)))
J("c07-java-zero-y", "C07", [(C, "return Int256Math.isZero(val, pOff + XCOORD) & Int256Math.isZero(val, pOff + ZCOORD)\n\t\t\t& (Int256Math.isZero(val, pOff + YCOORD) ^ 1);", "return Int256Math.isZero(val, pOff + XCOORD) & Int256Math.isZero(val, pOff + ZCOORD);")],
	"the triple (0, 0, 0)", "it is reported as the point at infinity", "System.out.println(CurvePointMath.isZero(new int[24], 0));")
# --- Java ECDSA ---
k8, d8 = 0x1234567, 0x998877
r8 = mul(k8, G)[0] % N
SG = 'int[] r = new int[8], s = new int[8]; System.out.println(Ecdsa.sign(num("%s"), new Sha256Hash(bytes("%s")), num("%s"), r, s) + " " + Int256Math.uintToHex(r, 0) + " " + Int256Math.uintToHex(s, 0));'
J("c08-java-low-s-top-bit", "C08", [(E, "Int256Math.replace(val, sOff, negSOff, Int256Math.lessThan(val, negSOff, sOff));", "Int256Math.replace(val, sOff, negSOff, val[sOff + NUM_WORDS - 1] >>> 31);")],
	"a raw s between half the order and 2^255", "a high s is returned", SG % (H(d8), H(((2**255 - 9) * k8 - r8 * d8) % N), H(k8)))
J("c08-java-hash-order", "C08", [(E, "\t\tInt256Math.uintSubtract(val, zOff, orderOff, Int256Math.lessThan(val, zOff, orderOff) ^ 1, zOff);\n", "")],
	"a message hash at or above the group order, with r times the key near the order", "the sum stays above the order and signing goes wrong", SG % (H((N - 1) * inv(r8, N) % N), H(2**256 - 1), H(k8)))
J("c11-java-key-trim", "C11", [(E, "byte[] privkeyBytes = Int256Math.uintToBytes(privateKey, 0);", "byte[] privkeyBytes = new java.math.BigInteger(1, Int256Math.uintToBytes(privateKey, 0)).toByteArray();\n\t\tif (privkeyBytes.length > NUM_WORDS * 4)\n\t\t\tprivkeyBytes = java.util.Arrays.copyOfRange(privkeyBytes, 1, privkeyBytes.length);")],
	"a private key with leading zero bytes", "another nonce is derived than for the 32-byte key", 'int[] r = new int[8], s = new int[8]; Ecdsa.signWithHmacNonce(num("%s"), new Sha256Hash(bytes("%s")), r, s); System.out.println(Int256Math.uintToHex(r, 0) + Int256Math.uintToHex(s, 0));' % (H(d8), H(5)))
S("c11-key-trim", "C11", [("cpp/Ecdsa.cpp", "const Sha256Hash hmac = Sha256::getHmac(\n", "const Sha256Hash hmac = Sha256::getHmac(\n")], "", "", "")
SEEDS.pop()
# Verification of a zero hash
zr = mul(77, G)[0] % N
zs = 99 * zr % N
Qz = mul(77 * zs * inv(zr, N) % N, G)
J("c10-java-hash-zero", "C10", [(E, "\t\tint pOff = 6 * NUM_WORDS;  // CurvePoint, reuses space\n", "\t\tif (Int256Math.isZero(val, u1Off) == 1 || Int256Math.isZero(val, u2Off) == 1)\n\t\t\treturn false;\n\t\tint pOff = 6 * NUM_WORDS;  // CurvePoint, reuses space\n")],
	"a valid signature of a hash that is zero modulo the order", "the signature is rejected", 'System.out.println(Ecdsa.verify(num("%s", "%s", "%s"), new Sha256Hash(bytes("%s")), num("%s"), num("%s")));' % (H(Qz[0]), H(Qz[1]), H(1), H(N), H(zr), H(zs)))
S("c10-hash-zero", "C10", [("cpp/Ecdsa.cpp", "\tCurvePoint p = CurvePoint::G;\n", "\tif (u1 == zero || u2 == zero)\n\t\treturn false;\n\tCurvePoint p = CurvePoint::G;\n")],
	"a valid signature of a hash that is zero modulo the order", "the signature is rejected", 'uint8_t h[32]; Uint256("%s").getBigEndianBytes(h); printf("%%d\\n", (int)Ecdsa::verify(CurvePoint(FieldInt("%s"), FieldInt("%s")), Sha256Hash(h, 32), Uint256("%s"), Uint256("%s")));' % (H(N), H(Qz[0]), H(Qz[1]), H(zr), H(zs)))
# u1 G == u2 Q
w_, r_ = 0x5555, mul(0x2468, G)[0] % N
# choose P = 2 u1 G: u1 = 0x1234; r = (2 u1 G).x; Q = d G with u2 d = u1; s arbitrary: u2 = r/s, z = u1 s
u1_ = 0x1234; r_ = mul(2 * u1_, G)[0] % N; s__ = 0x4321; z_ = u1_ * s__ % N; Qd = mul(u1_ * s__ * inv(r_, N) % N, G)
J("c10-java-same-sum", "C10", [(E, "\t\tCurvePointMath.add(val, pOff, qOff, tempOff);\n\t\tCurvePointMath.normalize(val, pOff, tempOff);\n", "\t\tCurvePointMath.normalize(val, pOff, tempOff);\n\t\tCurvePointMath.normalize(val, qOff, tempOff);\n\t\tif (Int256Math.equalTo(val, pOff, qOff) == 1)\n\t\t\treturn false;\n\t\tCurvePointMath.add(val, pOff, qOff, tempOff);\n\t\tCurvePointMath.normalize(val, pOff, tempOff);\n")],
	"a valid signature for which the two terms of the verification sum are the same point", "the signature is rejected", 'System.out.println(Ecdsa.verify(num("%s", "%s", "%s"), new Sha256Hash(bytes("%s")), num("%s"), num("%s")));' % (H(Qd[0]), H(Qd[1]), H(1), H(z_), H(r_), H(s__)))
S("c10-not-normalized", "C10", [("cpp/Ecdsa.cpp", "publicKey.z != CurvePoint::FI_ONE", "publicKey.z == CurvePoint::FI_ZERO")], "a public key that is on the curve as a triple but not normalized", "it is accepted", "")
SEEDS.pop()
# --- Java hashes ---
BIG = "byte[] b = new byte[%s]; b[7] = 3; System.out.println(%s);"
J("c12-java-int-length", "C12", [("Sha256", "long len = ((long)msg.length + prefixLen) << 3;", "long len = (msg.length + prefixLen) << 3;")], "a message of 256 MiB or more", "its length is padded wrongly", BIG % ("(1 << 29) + 5", "Sha256.getHash(b)"), jvm="-Xmx2g")
J("c13-java-int-length", "C13", [("Sha512", "long len = (long)msg.length << 3;", "long len = msg.length << 3;")], "a message of 256 MiB or more", "its length is padded wrongly", BIG % ("(1 << 29) + 5", "hex(Sha512.getHash(b))"), jvm="-Xmx2g")
LEN = "byte[] b = new byte[300]; for (int i = 0; i < 300; i++) b[i] = (byte)(i * 7); for (int n = 0; n < 300; n++) System.out.println(n + \" \" + %s);"
J("c12-java-pad", "C12", [("Sha256", "if (off + 8 > block.length) {", "if (off + 8 >= block.length) {")], "a message of 55 bytes modulo 64", "one block too many is hashed", LEN % "Sha256.getHash(java.util.Arrays.copyOf(b, n))")
J("c13-java-pad", "C13", [("Sha512", "if (off + 16 > block.length) {", "if (off + 16 >= block.length) {")], "a message of 111 bytes modulo 128", "one block too many is hashed", LEN % "hex(Sha512.getHash(java.util.Arrays.copyOf(b, n)))")
J("c14-java-pad", "C14", [("Ripemd160", "if (off + 8 > block.length) {", "if (off + 8 >= block.length) {")], "a message of 55 bytes modulo 64", "one block too many is hashed", LEN % "hex(Ripemd160.getHash(java.util.Arrays.copyOf(b, n)))")
J("c15-java-pad", "C15", [("Keccak256", "\t\tblockOff = BLOCK_SIZE - 1;\n\t\tstate[blockOff / 8] ^= 0x80L", "\t\tif (blockOff == BLOCK_SIZE - 1)\n\t\t\tabsorb(state);\n\t\tblockOff = BLOCK_SIZE - 1;\n\t\tstate[blockOff / 8] ^= 0x80L")], "a message of 135 bytes modulo 136", "the two padding bits go to different blocks", LEN % "hex(Keccak256.getHash(java.util.Arrays.copyOf(b, n)))")
J("c16-java-block", "C16", [("Sha512", "if (key.length > BLOCK_LEN)", "if (key.length >= BLOCK_LEN)")], "an HMAC key of exactly 128 bytes", "the key is hashed first", "for (int n = 120; n < 140; n++) System.out.println(hex(Sha512.getHmac(new byte[n], new byte[3])));")
J("c16-java-prefix", "C16", [("Sha256", "return getHash(innerHash.toBytes(), state, key.length);", "return getHash(innerHash.toBytes(), state, Math.max(prefix, key.length));"), ("Sha256", "\t\t// Preprocess key, creating a new byte array\n", "\t\tint prefix = Math.min(key.length, 2 * BLOCK_LEN);\n\t\t\n\t\t// Preprocess key, creating a new byte array\n")], "an HMAC key longer than the block", "the outer length counts the original key", "for (int n = 60; n < 90; n++) System.out.println(Sha256.getHmac(new byte[n], new byte[3]));")
S("c17-fill-block", "C17", [("cpp/Sha256.cpp", "\tfor (size_t i = 0; i < len; i++) {\n\t\tbuffer[bufferLen] = bytes[i];", "\tif (len > 1 && bufferLen > 0 && len <= BLOCK_LEN - bufferLen) {  // Fits in the buffer\n\t\tstd::memcpy(&buffer[bufferLen], bytes, len);\n\t\tbufferLen += len;\n\t\tlength += len;\n\t\treturn *this;\n\t}\n\tfor (size_t i = 0; i < len; i++) {\n\t\tbuffer[bufferLen] = bytes[i];")],
	"a piece of two or more bytes that exactly completes a partly filled block", "the full block is not compressed", 'uint8_t b[200]; for (int i = 0; i < 200; i++) b[i] = i; Sha256 h; h.append(b, 30); h.append(b + 30, 34); h.append(b, 50); show(h.getHash().value, 32);', [["-O1"]])
S("c17-512-total", "C17", [("cpp/Sha512.hpp", "uint64_t length;", "uint32_t length;"), ("cpp/Sha512.cpp", "uint64_t bitLength = length << 3;", "uint64_t bitLength = static_cast<uint64_t>(length) << 3;")], "appending more than 4 GiB in total", "", "")
SEEDS.pop()
# --- Base58 ---
J("c20-char-alias", "C20", [(B58, "int digit = ALPHABET.indexOf(s.charAt(i));", "int digit = ALPHABET.indexOf(s.charAt(i) & 0xFF);")], "a text with a character above U+00FF whose low byte is a Base58 digit", "it is accepted as an alias of another text",
	'String t = Base58Check.bytesToBase58(new byte[]{0, 1, 2, 3}); for (int i = 0; i < t.length(); i++) { String u = t.substring(0, i) + (char)(t.charAt(i) + 0x400) + t.substring(i + 1); ' + TRY % "hex(Base58Check.base58ToBytes(u))" + "}")
S("c18-depth-sign", "C18", [("cpp/Base58Check.cpp", "toEncode[ 4] = key.depth;", "toEncode[ 4] = static_cast<uint8_t>(key.depth & 0x7F);")], "an extended key of depth 128 or more", "another depth is exported", 'uint8_t c[32] = {1}, p[4] = {2}; char s[112]; Base58Check::extendedPrivateKeyToBase58Check(ExtendedPrivateKey(Uint256("%s"), c, 200, 7, p), s); puts(s);' % H(5), PURE)
S("c19-checksum-3", "C19", [("cpp/Base58Check.cpp", "for (unsigned int i = 0; i < 4; i++) {\n\t\tif (outData[outDataLen - 4 + i]", "for (unsigned int i = 0; i < 3; i++) {\n\t\tif (outData[outDataLen - 4 + i]")], "a text whose checksum is wrong in its last byte only", "it is accepted",
	'const char *t[] = {%s}; for (auto s : t) { uint8_t h[20], v; printf("%%d\\n", (int)Base58Check::pubkeyHashFromBase58Check(s, h, &v)); }' % ", ".join('"%s"' % x for x in (lambda raw: (lambda f: [f(raw + hashlib.sha256(hashlib.sha256(raw).digest()).digest()[:4]), f(raw + hashlib.sha256(hashlib.sha256(raw).digest()).digest()[:3] + b"\x99")])(lambda b: (lambda n: "".join(reversed([(lambda q: "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"[n // 58**q % 58])(i) for i in range(40) if n // 58**i])))(int.from_bytes(b, "big"))))(bytes(range(5, 26)))), PURE)
S("c19-strlen-36", "C19", [("cpp/Base58Check.cpp", "std::strlen(wifStr) < 38 || std::strlen(wifStr) > 52", "std::strlen(wifStr) <= 38 || std::strlen(wifStr) > 52")], "a WIF text of the least length (version zero, tiny key)", "it is refused",
	'char s[53]; Uint256 k("%s"); Base58Check::privateKeyToBase58Check(k, 0, false, s); puts(s); Uint256 b; printf("%%d\\n", (int)Base58Check::privateKeyFromBase58Check(s, b, nullptr, nullptr));' % H(0), PURE)
# --- Bech32 ---
J("c22-char-alias", "C22", [(B32, "int index = ALPHABET.indexOf(s.charAt(i));", "int index = ALPHABET.indexOf(s.charAt(i) & 0x7F);")], "a text with a character above U+007F whose low bits are a Bech32 digit", "it is accepted as an alias of another text",
	'String t = Bech32.bitGroupsToBech32("bc", new byte[]{0, 1, 2, 31}); for (int i = 3; i < t.length(); i++) { String u = t.substring(0, i) + (char)(t.charAt(i) + 0x80) + t.substring(i + 1); ' + TRY % "hex((byte[])Bech32.bech32ToBitGroups(u)[1])" + "}")
J("c22-case-z", "C22", [(B32, "hasLower |= 'a' <= c && c <= 'z';", "hasLower |= 'a' <= c && c < 'z';")], "an upper-case text whose only lower-case letters are z", "mixed case is accepted",
	'String t = Bech32.bitGroupsToBech32("bc", new byte[]{2, 9, 2}).toUpperCase(); ' + TRY % "hex((byte[])Bech32.bech32ToBitGroups(t.replace('Z', 'z'))[1])")
J("c22-hrp-del", "C22", [(B32, "if (c < 33 || c > 126)", "if (c < 33 || c > 127)")], "a prefix containing the delete character", "it is accepted", TRY % 'Bech32.bitGroupsToBech32("a\\u007fb", new byte[3])')
J("c22-length-91", "C22", [(B32, "if (human.length + 1 + data.length + 6 > 90)", "if (human.length + data.length + 6 > 90)")], "a prefix and data one group too long", "a 91-character text is produced", 'for (int n = 74; n < 84; n++) ' + TRY % 'Bech32.bitGroupsToBech32("tb", new byte[n])')
J("c22-negative-group", "C22", [(B32, "if ((b >>> 5) != 0)", "if (b >= 32)")], "a negative data group", "it is not refused properly", 'for (int n = -128; n < 40; n++) ' + TRY % 'Bech32.bitGroupsToBech32("tb", new byte[]{1, (byte)n})')
J("c22-first-separator", "C22", [(B32, "int i = s.lastIndexOf('1');", "int i = s.indexOf('1');")], "a prefix that contains a 1", "the text does not decode", 'for (String h : new String[]{"a", "a1", "1", "11b", "x1y1"}) ' + TRY % 'Bech32.bech32ToBitGroups(Bech32.bitGroupsToBech32(h, new byte[]{1, 2}))[0]')
# --- Segwit ---
J("c23-padding-5", "C23", [(B32, "if (bitBufferLen >= IN_BITS)\n", "if (bitBufferLen > IN_BITS)\n")], "an address with a whole group of zero padding", "two addresses decode to the same program",
	'for (int n = 2; n < 70; n++) ' + TRY % 'hex((byte[])Bech32.bech32ToSegwit(Bech32.bitGroupsToBech32("bc", new byte[n]))[2])')
J("c23-length-41", "C23", [(B32, "\t\tbyte[] witProg = new byte[(data.length - 1) * 5 / 8];  // Discard version prefix and padding suffix\n\t\tif (witProg.length < 2 || witProg.length > 40)", "\t\tbyte[] witProg = new byte[(data.length - 1) * 5 / 8];  // Discard version prefix and padding suffix\n\t\tif (witProg.length < 2 || witProg.length > 41)")], "an address of a 41-byte program", "it is accepted",
	'for (int n = 2; n < 75; n++) ' + TRY % 'hex((byte[])Bech32.bech32ToSegwit(Bech32.bitGroupsToBech32("bc", new byte[n]))[2])')
J("c23-version-17", "C23", [(B32, "int witVer = data[0];\n\t\tif (witVer < 0 || witVer > 16)", "int witVer = data[0];\n\t\tif (witVer < 0 || witVer > 17)")], "an address of witness version 17", "it is accepted",
	'for (int v = 0; v < 32; v++) { byte[] g = new byte[9]; g[0] = (byte)v; ' + TRY % 'Bech32.bech32ToSegwit(Bech32.bitGroupsToBech32("bc", g))[1]' + "}")
# --- Hash values ---
J("c24-java-compare", "C24", [("Sha256Hash", "for (int i = hash.length - 1; i >= 0; i--) {\n\t\t\tint temp", "for (int i = hash.length - 1; i > 0; i--) {\n\t\t\tint temp")], "two hashes that differ in their least significant byte only", "they compare as equal although they are not", 'byte[] b = new byte[32]; Sha256Hash x = new Sha256Hash(b); b[0] = 1; System.out.println(x.compareTo(new Sha256Hash(b)));')
J("c24-java-shared", "C24", [("Sha256Hash", "hash = b.clone();", "hash = b;")], "changing the array a hash was made from", "the hash value changes", 'byte[] b = new byte[32]; Sha256Hash x = new Sha256Hash(b); b[3] = 9; System.out.println(x);')
J("c24-java-hex-digits", "C24", [("Sha256Hash", '!s.matches("[0-9a-fA-F]*")', '!s.matches("[\\\\p{Nd}a-fA-F]*")')], "a hexadecimal text with digits of another script", "it is accepted", TRY % 'new Sha256Hash("\\u0661\\uff12" + new String(new char[62]).replace((char)0, (char)48))')
S("c24-digit-sign", "C24", [("cpp/Sha256Hash.cpp", "value[i >> 1] |= digit << ((i & 1) << 2);", "value[i >> 1] += digit * (1 << ((i & 1) << 2));")], "", "", "")
SEEDS.pop()
# --- Java arrays ---
J("c31-xor-swap", "C31", [(I, "\t\t\tint a = val[xOff + i];\n\t\t\tint b = val[yOff + i];\n\t\t\tval[xOff + i] = (b & mask) | (a & ~mask);\n\t\t\tval[yOff + i] = (a & mask) | (b & ~mask);\n", "\t\t\tval[xOff + i] ^= val[yOff + i] & mask;\n\t\t\tval[yOff + i] ^= val[xOff + i] & mask;\n\t\t\tval[xOff + i] ^= val[yOff + i] & mask;\n")],
	"swapping a number with itself", "the number becomes zero", 'int[] v = num("%s"); Int256Math.swap(v, 0, 0, 1); System.out.println(Int256Math.uintToHex(v, 0));' % H(77))
J("c31-normalize-overrun", "C31", [(C, "\t\tint newTempOff = tempOff + POINT_WORDS;\n\t\tint normOff = tempOff;\n", "\t\tint newTempOff = tempOff + POINT_WORDS + NUM_WORDS;\n\t\tint normOff = tempOff;\n")],
	"an array with data right after the documented scratch space", "eight words after the scratch space are overwritten", 'int[] v = new int[24 + 72 + 24]; System.arraycopy(num("%s", "%s", "%s"), 0, v, 0, 24); java.util.Arrays.fill(v, 96, 120, 7); CurvePointMath.normalize(v, 0, 24); for (int i = 96; i < 120; i++) System.out.println(v[i]);' % (H(G[0] * 2), H(G[1] * 2), H(2)))
J("c31-oncurve-input", "C31", [(C, "\t\tint leftOff = tempOff + 1 * NUM_WORDS;  // Reuses space\n\t\tInt256Math.fieldSquare(val, pOff + YCOORD, leftOff, newTempOff);\n\t\treturn Int256Math.equalTo(val, leftOff, rightOff) & (isZero(val, pOff) ^ 1);", "\t\tint leftOff = pOff + YCOORD;  // Reuses space\n\t\tInt256Math.fieldSquare(val, pOff + YCOORD, leftOff, newTempOff);\n\t\treturn Int256Math.equalTo(val, leftOff, rightOff) & (isZero(val, pOff) ^ 1);")],
	"using a point after asking whether it is on the curve", "its y coordinate has been squared", 'int[] v = new int[24 + 56]; System.arraycopy(CurvePointMath.getBasePoint(), 0, v, 0, 24); System.out.println(CurvePointMath.isOnCurve(v, 0, 24)); System.out.println(Int256Math.uintToHex(v, 8));')
J("c31-subtract-alias", "C31", [(I, "\t\tlong mask = LONG_MASK & -enableY;\n\t\tint borrow = 0;\n", "\t\tlong mask = LONG_MASK & -enableY;\n\t\tif (enableY == 0) {\n\t\t\tcopy(val, xOff, val, zOff);\n\t\t\treturn 0;\n\t\t}\n\t\tint borrow = 0;\n")], "", "", "")
SEEDS.pop()
# --- Purity ---
J("c28-java-static-schedule", "C28", [("Sha256", "int[] schedule = new int[64];\n", "int[] schedule = SCHEDULE;\n\t\t\tjava.util.Arrays.fill(schedule, 0, 16, 0);\n"), ("Sha256", "\tprivate static final int[] INITIAL_STATE = {", "\tprivate static final int[] SCHEDULE = new int[64];\n\t\n\tprivate static final int[] INITIAL_STATE = {")],
	"hashing from several threads at the same time", "the threads overwrite each other's message schedule",
	'''		byte[] b = new byte[100000];
		String e = Sha256.getHash(b).toString();
		java.util.concurrent.atomic.AtomicInteger bad = new java.util.concurrent.atomic.AtomicInteger();
		Thread[] t = new Thread[4];
		for (int i = 0; i < 4; i++) (t[i] = new Thread(() -> { for (int j = 0; j < 300; j++) if (!Sha256.getHash(b).toString().equals(e)) bad.set(1); })).start();
		for (Thread x : t) x.join();
		System.out.println(bad);''')
S("c28-static-schedule", "C28", [("cpp/Ripemd160.cpp", "\tuint32_t schedule[16];\n", "\tstatic uint32_t schedule[16];\n")], "hashing from several threads at the same time", "the threads overwrite each other's message schedule",
	'''	std::vector<uint8_t> b(200000); uint8_t e[20]; Ripemd160::getHash(b.data(), b.size(), e);
	volatile int bad = 0; std::vector<std::thread> t;
	for (int i = 0; i < 4; i++) t.emplace_back([&] { for (int j = 0; j < 300; j++) { uint8_t o[20]; Ripemd160::getHash(b.data(), b.size(), o); if (memcmp(o, e, 20) != 0) bad = 1; } });
	for (auto &x : t) x.join();
	printf("%d\\n", bad);''', [["-O1"]], pre="#include <thread>\n")
S("c28-table-cache", "C28", [("cpp/CurvePoint.cpp", "\tCurvePoint table[tableLen];  // Default-initialized with ZERO\n\ttable[1] = *this;\n", "\tstatic CurvePoint table[tableLen];  // Default-initialized with ZERO\n\tif (table[1].x != x || table[1].z != z) {\n\ttable[1] = *this;\n"), ("cpp/CurvePoint.cpp", "\t\tcountOps(1 * curvepointCopyOps);\n\t}\n\t\n\t// Process tableBits per iteration", "\t\tcountOps(1 * curvepointCopyOps);\n\t}\n\t}\n\t\n\t// Process tableBits per iteration")],
	"multiplying a point and then its negative", "the table of the first point is used for the second", 'CurvePoint a = CurvePoint::G, b = a; b.y = CurvePoint::FI_ZERO; b.y.subtract(a.y); Uint256 n("%s"); for (CurvePoint *p : {&a, &b}) { p->multiply(n); p->normalize(); show(Uint256(p->x)); show(Uint256(p->y)); }' % H(12345), ASM)
S("c28-memo-hash", "C28", [("cpp/Sha256.cpp", "Sha256Hash Sha256::getDoubleHash(const uint8_t msg[], size_t len) {\n", "Sha256Hash Sha256::getDoubleHash(const uint8_t msg[], size_t len) {\n\tstatic const uint8_t *last = nullptr;\n\tstatic size_t lastLen = 0;\n\tstatic uint8_t lastByte = 0;\n\tstatic uint8_t lastHash[Sha256Hash::HASH_LEN];\n\tif (len > 0 && last == msg && lastLen == len && lastByte == msg[len - 1])\n\t\treturn Sha256Hash(lastHash, Sha256Hash::HASH_LEN);\n"),
	("cpp/Sha256.cpp", "\tconst Sha256Hash innerHash = getHash(msg, len);\n\treturn getHash(innerHash.value, Sha256Hash::HASH_LEN);\n", "\tconst Sha256Hash innerHash = getHash(msg, len);\n\tconst Sha256Hash outerHash = getHash(innerHash.value, Sha256Hash::HASH_LEN);\n\tlast = msg;\n\tlastLen = len;\n\tlastByte = len > 0 ? msg[len - 1] : 0;\n\tstd::memcpy(lastHash, outerHash.value, sizeof(lastHash));\n\treturn outerHash;\n")],
	"hashing the same buffer again after changing a byte other than its last", "the old hash is returned", 'uint8_t b[50] = {1}; show(Sha256::getDoubleHash(b, 50).value, 32); b[0] = 2; show(Sha256::getDoubleHash(b, 50).value, 32);', PURE)
# --- Compiler settings ---
S("c29-assert-carry", "C29", [("cpp/Base58Check.cpp", "\t\tcarry = sum >> 8;\n\t\tassert((carry >> 1) == 0);\n", "\t\tassert(((carry = sum >> 8) >> 1) == 0);\n")], "a build with NDEBUG, and a text whose digits carry", "carries are lost", 'uint8_t h[20], v; printf("%%d\\n", (int)Base58Check::pubkeyHashFromBase58Check("%s", h, &v));' % b58c(b"\x05" + bytes(range(200, 220))), [["-O1", "-DNDEBUG"]])
S("c29-plain-char", "C29", [("cpp/Uint256.cpp", "\tfor (int i = 0; i < NUM_WORDS * 8; i++) {\n\t\tint digit = Utils::parseHexDigit(str[NUM_WORDS * 8 - 1 - i]);\n\t\tassert(digit != -1);\n\t\tvalue[i >> 3] |= static_cast<uint32_t>(digit) << ((i & 7) << 2);", "\tfor (int i = 0; i < NUM_WORDS * 8; i++) {\n\t\tchar digit = static_cast<char>(Utils::parseHexDigit(str[NUM_WORDS * 8 - 1 - i]));\n\t\tif (digit < 0)\n\t\t\tdigit = 0;\n\t\tvalue[i >> 3] |= static_cast<uint32_t>(digit) << ((i & 7) << 2);")], "", "", "")
SEEDS.pop()
S("c29-char-sum", "C29", [("cpp/Base58Check.cpp", "\tunsigned int sum = 0;\n\tfor (size_t i = 0; i < len; i++)\n\t\tsum = ((sum * 24) + x[i]) % 58;  // Note: 256 % 58 = 24", "\tint sum = 0;\n\tfor (size_t i = 0; i < len; i++)\n\t\tsum = ((sum * 24) + static_cast<char>(x[i]) + (x[i] >> 7) * 256) % 58;  // Note: 256 % 58 = 24")], "a build where plain char is unsigned", "digits are wrong", 'uint8_t h[20]; memset(h, 0xC3, 20); char s[40]; Base58Check::pubkeyHashToBase58Check(h, 5, s); puts(s);', [["-O1", "-funsigned-char"]])
S("c29-static-init", "C29", [("cpp/Ecdsa.cpp", "#include \"CountOps.hpp\"", "#include \"CountOps.hpp\"\nstatic const Uint256 GROUP_ORDER = CurvePoint::ORDER;"), ("cpp/Ecdsa.cpp", "\tconst Uint256 &mod = CurvePoint::ORDER;\n", "\tconst Uint256 &mod = GROUP_ORDER;\n")], "linking Ecdsa.o before CurvePoint.o", "the group order is zero when it is copied", "")
SEEDS.pop()
J("c29-java-assert", "C29", [(I, "\t\t\tcarry = (int)(sum >>> 32);\n\t\t\tassert (carry >>> 1) == 0;\n\t\t}\n\t\treturn carry;", "\t\t\tassert ((carry = (int)(sum >>> 32)) >>> 1) == 0;\n\t\t}\n\t\treturn carry;")], "running without assertions, as Java does by default", "carries are lost", 'int[] v = new int[24]; System.arraycopy(num("%s", "%s"), 0, v, 0, 16); System.out.println(Int256Math.uintAdd(v, 0, 8, 1, 16)); System.out.println(Int256Math.uintToHex(v, 16));' % (H(2**32 - 1), H(1)), jvm="-da")
# --- Assembly ---
S("c30-wide-enable", "C30", [("cpp/AsmX8664.s", "asm_Uint256_subtract:\n\tnegl    %edx\n\tmovslq  %edx, %rdx\n", "asm_Uint256_subtract:\n\tnegq    %rdx\n")], "a caller that leaves other data in the upper half of the flag's register, as the calling convention allows", "the wrong number is subtracted",
	'Uint256 a("%s"), b("%s"); typedef uint32_t (*F)(uint32_t *, const uint32_t *, uint64_t); F f = reinterpret_cast<F>(asm_Uint256_subtract); volatile uint64_t g = 0x500000000; f(&a.value[0], &b.value[0], g); show(a);' % (H(2**200), H(2**198 - 3)), AS, pre='extern "C" uint32_t asm_Uint256_subtract(uint32_t *, const uint32_t *, uint32_t);\n')
for reg in ("rbx", "r14"):
	S("c30-clobber-" + reg, "C30", [("cpp/AsmX8664.s", "\tmovq    16(%rdi), %r8\n\tmovq    24(%rdi), %r9\n\txorl    %edi, %edi\n", "\tmovq    16(%rdi), %" + reg + "\n\tmovq    24(%rdi), %r9\n\txorl    %edi, %edi\n"), ("cpp/AsmX8664.s", "\tcmpq    16(%rsi), %r8\n", "\tcmpq    16(%rsi), %" + reg + "\n")],
	"a caller that keeps a value in the register", "the comparison overwrites a register that belongs to its caller",
	'Uint256 a("%s"), b("%s"); uint64_t v; __asm__ volatile("mov $12345, %%%%%s\\n\\tand $-16, %%%%rsp\\n\\tcall asm_Uint256_lessThan\\n\\tmov %%%%%s, %%0" : "=r"(v), "+D"(pa), "+S"(pb) : : "rax", "rcx", "rdx", "r8", "r9", "r10", "r11", "%s", "memory", "cc"); printf("%%d\\n", (int)v);' % (H(100), H(30), reg, reg, reg), AS, pre='extern "C" bool asm_Uint256_lessThan(const uint32_t *, const uint32_t *);\n')
	d = SEEDS[-1]["demo"].replace('uint64_t v;', 'uint64_t v; const uint32_t *pa = &a.value[0], *pb = &b.value[0];').replace("and $-16, %%rsp\\n\\t", "").replace("and $-16, %rsp\\n\\t", "")
	d = d.replace("int main() {\n", "static void __attribute__((noinline)) run() {\n") + "int main() { run(); }\n"
	SEEDS[-1]["demo"] = d
	SEEDS[-1]["flags"] = [["-O1", "-mno-red-zone", "-DUSE_X8664_ASM_IMPL"]]
S("c30-aligned-load", "C30", [("cpp/AsmX8664.s", "asm_Uint256_replace:\n\tnegl      %edx\n\tmovd      %edx, %xmm0\n\tpshufd    $0, %xmm0, %xmm0\n\tmovdqu     0(%rdi), %xmm1\n", "asm_Uint256_replace:\n\tnegl      %edx\n\tmovd      %edx, %xmm0\n\tpshufd    $0, %xmm0, %xmm0\n\tmovdqa     0(%rdi), %xmm1\n")], "a number that is not placed at a multiple of 16 bytes", "the program crashes",
	'alignas(16) uint32_t m[20] = {}; Uint256 *a = new (&m[1]) Uint256("%s"); Uint256 b("%s"); a->replace(b, 1); show(*a);' % (H(1), H(2)), AS, pre="#include <new>\n")
# --- Memory ---
GUARD = r'''
#include <sys/mman.h>
// n bytes that end (or begin) at an inaccessible page
static uint8_t *atEnd(size_t n) { uint8_t *p = (uint8_t *)mmap(0, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(p + 4096, 4096, PROT_NONE); memset(p, 0x77, 4096); return p + 4096 - n; }
'''
S("c27-ripemd-overread", "C27", [("cpp/Ripemd160.cpp", "\tUtils::copyBytes(block, &msg[off], len - off);\n\toff = len & (BLOCK_LEN - 1);\n", "\tif (len - off > 0)\n\t\tstd::memcpy(block, &msg[off], BLOCK_LEN);\n\tstd::memset(&block[len - off], 0, BLOCK_LEN - (len - off));\n\toff = len & (BLOCK_LEN - 1);\n")], "a message at the end of its memory", "up to 63 bytes after the message are read", 'uint8_t *p = atEnd(70), o[20]; Ripemd160::getHash(p, 70, o); show(o, 20);', PURE, pre=GUARD)
S("c27-wif-terminator", "C27", [("cpp/Base58Check.cpp", "\tbytesToBase58Check(toEncode, temp, arrayLen - (isCompressed ? 4 : 5), outStr);\n", "\tbytesToBase58Check(toEncode, temp, arrayLen - (isCompressed ? 4 : 5), outStr);\n\tsize_t n = std::strlen(outStr);\n\toutStr[n + 1] = '\\0';\n")], "the longest private key text in a buffer of exactly 53 bytes", "one byte after the buffer is overwritten", 'char *p = (char *)atEnd(53); Base58Check::privateKeyToBase58Check(Uint256("%s"), 128, true, p); puts(p);' % H(N - 1), PURE, pre=GUARD)
S("c27-xprv-header", "C27", [("cpp/Base58Check.cpp", "\tassert(xprvStr != nullptr);\n\tif (std::strlen(xprvStr) != 111)\n\t\treturn false;\n", "\tassert(xprvStr != nullptr);\n\tif (std::memcmp(xprvStr, \"xprv\", 4) != 0 || std::strlen(xprvStr) != 111)\n\t\treturn false;\n")], "a text shorter than four characters at the end of its memory", "bytes after the text are read", 'char *p = (char *)atEnd(2); p[0] = \'x\'; p[1] = 0; ExtendedPrivateKey k; printf("%d\\n", (int)Base58Check::extendedPrivateKeyFromBase58Check(p, k));', [["-O0", "-fno-builtin"]], pre=GUARD)
S("c27-hmac-key", "C27", [("cpp/Sha256.cpp", "\tif (keyLen <= BLOCK_LEN)\n\t\tUtils::copyBytes(tempKey, key, keyLen);\n", "\tif (keyLen <= BLOCK_LEN) {\n\t\tfor (size_t i = 0; i < keyLen; i += 4) {\n\t\t\tuint8_t quad[4];\n\t\t\tstd::memcpy(quad, &key[i], 4);\n\t\t\tfor (size_t j = 0; j < 4 && i + j < keyLen; j++)\n\t\t\t\ttempKey[i + j] = quad[j];\n\t\t}\n\t}\n")], "an HMAC key whose length is not a multiple of four, at the end of its memory", "up to three bytes after the key are read", 'uint8_t *p = atEnd(7); show(Sha256::getHmac(p, 7, p, 7).value, 32);', PURE, pre=GUARD)
S("c27-table-overrun", "C27", [("cpp/CurvePoint.cpp", "\t\tfor (unsigned int j = 0; j < tableLen; j++) {\n\t\t\tcountOps(loopBodyOps);\n\t\t\tq.replace(table[j]", "\t\tfor (unsigned int j = 0; j <= tableLen; j++) {\n\t\t\tcountOps(loopBodyOps);\n\t\t\tq.replace(table[j]")], "", "", "")
SEEDS.pop()
S("c21-zero-child", "C21", [("cpp/ExtendedPrivateKey.cpp", "\tif (num == Uint256::ZERO)\n\t\treturn ExtendedPrivateKey();\n", "\tif (num == Uint256::ZERO && index >= HARDEN)\n\t\treturn ExtendedPrivateKey();\n")], "a normal child whose key comes out as zero (one in 2^256)", "it is not refused",
	'''uint8_t cc[32] = {1}, pp[4] = {2}; ExtendedPrivateKey k(Uint256("%s"), cc, 3, 4, pp); ExtendedPrivateKey c = k.getChildKey(9); show(c.privateKey); printf("%%d %%u\\n", c.depth, c.index); show(c.chainCode, 32);''' % H(N - 600), [["-O1", "-DNDEBUG", "-Wl,--wrap=_ZN6Sha5127getHmacEPKhmS1_mPh"]], pre='''
extern "C" void __wrap__ZN6Sha5127getHmacEPKhmS1_mPh(const uint8_t *, size_t, const uint8_t *, size_t, uint8_t *out) {
	Uint256 n("%s"); n.getBigEndianBytes(out); memset(out + 32, 7, 32);
}
''' % H(600))
S("c06-zero-scalar", "C06", [("cpp/CurvePoint.cpp", "\t*this = ZERO;\n\tcountOps(1 * curvepointCopyOps);\n\tfor (int i = Uint256::NUM_WORDS * 32 - tableBits; i >= 0; i -= tableBits) {", "\tint words = Uint256::NUM_WORDS;\n\twhile (words > 0 && n.value[words - 1] == 0)\n\t\twords--;\n\tif (words == 0)\n\t\twords = 1;\n\tif (words > 1 || n.value[0] != 0)\n\t\t*this = ZERO;\n\tcountOps(1 * curvepointCopyOps);\n\tfor (int i = words * 32 - tableBits; i >= 0; i -= tableBits) {")], "multiplying by zero", "the result is another multiple of the point", 'CurvePoint c = CurvePoint::G; c.multiply(Uint256::ZERO); printf("%d\\n", (int)c.isZero());', ASM)
S("c06-nibble-fold", "C06", [("cpp/CurvePoint.cpp", "\t\tunsigned int inc = (n.value[i >> 5] >> (i & 31)) & (tableLen - 1);\n", "\t\tunsigned int inc = (n.value[i >> 5] >> (i & 31)) & (tableLen - 1);\n\t\tif (inc == 0 && i == Uint256::NUM_WORDS * 32 - tableBits && n >= ORDER)\n\t\t\tinc = 1;\n")], "", "", "")
SEEDS.pop()
