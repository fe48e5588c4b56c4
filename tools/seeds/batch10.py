exec(open("/verif/tools/seeds/batch3.py").read().split('# --- Java arithmetic and curve ---')[0])
SEEDS = []
U, F, CP, B = "cpp/Uint256.cpp", "cpp/FieldInt.cpp", "cpp/CurvePoint.cpp", "cpp/Base58Check.cpp"
J("c01-java-shift-skip", "C01", [(I, "\t\tint mask = -enableShift;\n\t\tint cur = val[xOff];\n", "\t\tif (enableShift == 0)\n\t\t\treturn;\n\t\tint mask = -enableShift;\n\t\tint cur = val[xOff];\n")],
	"a disabled right shift into another place", "the destination is not written",
	'int[] v = num("%s", "%s"); Int256Math.uintShiftRight1(v, 0, 0, 8); System.out.println(Int256Math.uintToHex(v, 8));' % (H(12345), H(7)))
S("c01-shift-carry", "C01", [(U, "\tcountOps(1 * arithmeticOps);\n\treturn prev >> 31;\n", "\tcountOps(1 * arithmeticOps);\n\treturn static_cast<uint32_t>(value[NUM_WORDS - 1] < prev);  // The top word wrapped around\n")],
	"a left shift of a number whose top word doubles to at least itself while losing its top bit: the word 0xFFFFFFFF with a one coming in", "the carry is lost",
	'Uint256 a("%s"); printf("%%d\\n", (int)a.shiftLeft1()); show(a);' % H(2**256 - 2**200), flags=PURE)
S("c02-hex-sign", "C02", [(U, "\t\tvalue[i >> 2] |= static_cast<uint32_t>(b[NUM_WORDS * 4 - 1 - i]) << ((i & 3) << 3);", "\t\tvalue[i >> 2] += static_cast<uint32_t>(static_cast<int8_t>(b[NUM_WORDS * 4 - 1 - i]) & (b[NUM_WORDS * 4 - 1 - i] == 0x80 && i > 27 ? 0x7F : 0xFF)) << ((i & 3) << 3);")],
	"a byte array starting with 0x80", "the top bit is dropped",
	'uint8_t b[32] = {0x80, 5}; show(Uint256(b));', flags=PURE)
J("c02-java-less", "C02", [(I, "\t\t\tneq = (neq | -neq) >>> 31;  // 0 or 1\n\t\t\tint lt = ((~a & b) | ((~a ^ b) & (a - b))) >>> 31;  // 0 or 1\n", "\t\t\tneq = (neq | -neq) >>> 31;  // 0 or 1\n\t\t\tint lt = ((a ^ -0x80000000) - (b ^ -0x80000000)) >>> 31;  // 0 or 1\n")],
	"two words that differ by 2^31 or more", "less-than is wrong",
	'System.out.println(Int256Math.lessThan(num("%s", "%s"), 0, 8)); System.out.println(Int256Math.lessThan(num("%s", "%s"), 0, 8));' % (H(5 << 96), H(0xFFFFFFFF << 96), H(0xF0000000 << 32), H(3 << 32)))
S("c04-top-word", "C04", [(F, "static_cast<uint32_t>((difference[NUM_WORDS] != 0) | (*this >= MODULUS))", "static_cast<uint32_t>(*this >= MODULUS)")],
	"a product whose remainder estimate is 2^256 or more", "the product is not reduced", 'FieldInt a("%s"), b("%s"); a.multiply(b); show(Uint256(a));' % (H(P - 12345), H((2**32 + 977 + 99) * inv(P - 12345, P) % P)), flags=PURE)
S("c11-trim", "C11", [("cpp/Ecdsa.cpp", "\tconst Sha256Hash hmac = Sha256::getHmac(privkeyBytes, sizeof(privkeyBytes), msgHash.value, Sha256Hash::HASH_LEN);\n", "\tstd::size_t skip = 0;\n\twhile (skip < sizeof(privkeyBytes) && privkeyBytes[skip] == 0)\n\t\tskip++;\n\tconst Sha256Hash hmac = Sha256::getHmac(&privkeyBytes[skip], sizeof(privkeyBytes) - skip, msgHash.value, Sha256Hash::HASH_LEN);\n")],
	"a private key below 2^248", "another nonce is derived than for the 32-byte key",
	'Uint256 r = Uint256::ZERO, s = Uint256::ZERO; uint8_t h[32] = {7}; printf("%%d\\n", (int)Ecdsa::signWithHmacNonce(Uint256("%s"), Sha256Hash(h, 32), r, s)); show(r); show(s);' % H(0xABCDEF), flags=PURE)
J("c14-java-length-signed", "C14", [("Ripemd160", "\t\tlong len = (long)msg.length << 3;\n\t\tfor (int i = 0; i < 8; i++)\n\t\t\tblock[block.length - 8 + i] = (byte)(len >>> (i * 8));\n", "\t\tint len = msg.length << 3;\n\t\tfor (int i = 0; i < 8; i++)\n\t\t\tblock[block.length - 8 + i] = (byte)((long)len >>> (i * 8));\n")],
	"a message of 256 MiB or more", "its length is padded wrongly", "byte[] b = new byte[(1 << 28) + 5]; b[7] = 3; System.out.println(hex(Ripemd160.getHash(b)));", jvm="-Xmx2g")
J("c15-java-offset", "C15", [("Keccak256", "\t\tint blockOff = 0;\n\t\tfor (int i = 0; i < msg.length; i++) {\n\t\t\tstate[blockOff / 8] ^= (msg[i] & 0xFFL) << (blockOff % 8 * 8);\n\t\t\tblockOff++;\n\t\t\tif (blockOff == BLOCK_SIZE) {\n\t\t\t\tabsorb(state);\n\t\t\t\tblockOff = 0;\n\t\t\t}\n", "\t\tint blockOff = 0;\n\t\tfor (int i = 0; i < msg.length; i++) {\n\t\t\tblockOff = (short)i % BLOCK_SIZE;\n\t\t\tstate[blockOff / 8 & 31] ^= (msg[i] & 0xFFL) << (blockOff % 8 * 8);\n\t\t\tblockOff++;\n\t\t\tif (blockOff == BLOCK_SIZE) {\n\t\t\t\tabsorb(state);\n\t\t\t\tblockOff = 0;\n\t\t\t}\n")],
	"a message longer than 32767 bytes", "bytes go to the wrong places", "byte[] b = new byte[40000]; b[7] = 3; try { System.out.println(hex(Keccak256.getHash(b))); } catch (RuntimeException e) { System.out.println(e); }")
S("c15-lane-order", "C15", [("cpp/Keccak256.cpp", "\t\tstate[j % 5][j / 5] ^= static_cast<uint64_t>(msg[i]) << ((blockOff & 7) << 3);\n\t\tblockOff++;\n\t\tif (blockOff == BLOCK_SIZE) {\n", "\t\tstate[j % 5][j / 5] ^= static_cast<uint64_t>(msg[i]) << ((blockOff & 7) << 3);\n\t\tblockOff++;\n\t\tif (blockOff == BLOCK_SIZE && i + 1 == len && msg[i] == 0x81)  // Already padded\n\t\t\tblockOff--;\n\t\telse if (blockOff == BLOCK_SIZE) {\n")],
	"a message of whole blocks that ends with the byte 0x81", "it is taken for a padded block",
	'uint8_t m[272] = {}, o[32]; m[271] = 0x81; Keccak256::getHash(m, 272, o); for (int i = 0; i < 20; i++) printf("%02x", o[i]); puts("");')
S("c18-master-parent", "C18", [(B, "\tstd::memcpy(&toEncode[5], key.parentPubkeyHash, sizeof(key.parentPubkeyHash));\n\tUtils::storeBigUint32(key.index, &toEncode[9]);\n", "\tstd::memset(&toEncode[5], 0, 8);\n\tif (key.depth > 0) {  // Not a master key\n\t\tstd::memcpy(&toEncode[5], key.parentPubkeyHash, sizeof(key.parentPubkeyHash));\n\t\tUtils::storeBigUint32(key.index, &toEncode[9]);\n\t}\n")],
	"a key of depth 0 with an index or parent hash (depth wraps around after 255)", "index and parent hash are not exported", 'uint8_t c[32] = {1}, p[4] = {2}; char s[112]; Base58Check::extendedPrivateKeyToBase58Check(ExtendedPrivateKey(Uint256("%s"), c, 0, 7, p), s); puts(s);' % H(5), flags=PURE)
S("c18-zero-tail", "C18", [(B, "\tfor (size_t i = 0; i < len; i++) {\n\t\tif (x[i] != 0)\n\t\t\treturn false;\n\t}\n\treturn true;\n", "\tunsigned char sum = 0;\n\tfor (size_t i = 0; i < len; i++)\n\t\tsum += x[i];\n\treturn sum == 0;\n")],
	"data of which at some division the bytes add up to a multiple of 256", "leading digits are left out",
	'for (int i = 0; i < 300; i++) { uint8_t h[20] = {}; h[0] = (uint8_t)i; h[5] = (uint8_t)(i >> 3); char s[36]; Base58Check::pubkeyHashToBase58Check(h, 5, s); puts(s); }', flags=PURE)
J("c20-java-long", "C20", [(B58, "\t\tBigInteger num = new BigInteger(1, data);\n", "\t\tBigInteger num = new BigInteger(data.length == 8 ? 0 - (data[0] >>> 7) | 1 : 1, data);\n")],
	"a payload of 4 bytes with its top bit set", "the number is taken as negative", 'for (int i = 0; i < 256; i += 17) { try { System.out.println(Base58Check.bytesToBase58(new byte[]{(byte)i, 1, 2, 3})); } catch (RuntimeException e) { System.out.println(e.getClass()); } }')
J("c20-java-many-ones", "C20", [(B58, "i < s.length() && s.charAt(i) == ALPHABET.charAt(0); i++)\n\t\t\t\tbuf.write(0);", "i < Math.min(s.length(), 64) && s.charAt(i) == ALPHABET.charAt(0); i++)\n\t\t\t\tbuf.write(0);")],
	"a payload with more than 64 leading zero bytes", "zero bytes are lost and the checksum mismatches", TRY % 'hex(Base58Check.base58ToBytes(Base58Check.bytesToBase58(new byte[70])))')
J("c24-java-words", "C24", [("Sha256Hash", "\t\tfor (int i = hash.length - 1; i >= 0; i--) {\n\t\t\tint temp = (hash[i] & 0xFF) - (other.hash[i] & 0xFF);\n\t\t\tif (temp != 0)\n\t\t\t\treturn temp;\n\t\t}\n\t\treturn 0;\n", "\t\tfor (int i = hash.length - 4; i >= 0; i -= 4) {\n\t\t\tint a = 0, b = 0;\n\t\t\tfor (int j = 3; j >= 0; j--) {\n\t\t\t\ta = a << 8 | (hash[i + j] & 0xFF);\n\t\t\t\tb = b << 8 | (other.hash[i + j] & 0xFF);\n\t\t\t}\n\t\t\tif (a != b)\n\t\t\t\treturn (a >>> 1) - (b >>> 1);\n\t\t}\n\t\treturn 0;\n")],
	"two hashes whose first different words differ in the last bit only", "they compare as equal", 'byte[] x = new byte[32]; byte[] y = new byte[32]; y[12] = 1; System.out.println(Integer.signum(new Sha256Hash(x).compareTo(new Sha256Hash(y))));')
J("c31-java-one", "C31", [(I, "int oneOff = tempOff + 5 * NUM_WORDS;", "int oneOff = val.length - tempOff > RECIPROCAL_TEMP_WORDS + NUM_WORDS ? tempOff + RECIPROCAL_TEMP_WORDS : tempOff + 5 * NUM_WORDS;")],
	"an array with words after the temporary space", "eight more words are overwritten", 'int[] v = new int[128]; java.util.Arrays.fill(v, 77); System.arraycopy(num("%s", "%s"), 0, v, 0, 16); Int256Math.reciprocal(v, 0, 8, 16, 24); System.out.println(java.util.Arrays.toString(java.util.Arrays.copyOfRange(v, 72, 128)));' % (H(5), H(P)))
J("c31-java-normalize", "C31", [(C, "\t\tInt256Math.replace(val, pOff + XCOORD, normOff + ZCOORD, Int256Math.isZero(val, pOff + XCOORD) ^ 1);\n", "\t\tif (nonzero == 0 && val.length - tempOff > NORMALIZE_TEMP_WORDS)\n\t\t\tArrays.fill(val, tempOff, tempOff + NORMALIZE_TEMP_WORDS + 1, 0);\n\t\tval[normOff + ZCOORD] = 1;\n\t\tInt256Math.replace(val, pOff + XCOORD, normOff + ZCOORD, Int256Math.isZero(val, pOff + XCOORD) ^ 1);\n")],
	"normalizing a point at infinity", "a word after the temporary space is cleared", 'int[] v = new int[128]; java.util.Arrays.fill(v, 77); System.arraycopy(num("%s", "%s", "%s"), 0, v, 0, 24); CurvePointMath.normalize(v, 0, 24); System.out.println(java.util.Arrays.toString(java.util.Arrays.copyOfRange(v, 96, 128)));' % (H(0), H(5), H(0)))
S("c37-overlap", "C37", [("cpp/Utils.cpp", "\tif (count > 0)\n\t\tstd::memmove(dest, src, count);\n", "\tconst uint8_t *from = static_cast<const uint8_t*>(src);\n\tuint8_t *to = static_cast<uint8_t*>(dest);\n\tfor (std::size_t i = 0; i < count; i++)\n\t\tto[i] = from[i];\n")],
	"a copy to an overlapping place that lies higher", "bytes are repeated", 'uint8_t b[16]; for (int i = 0; i < 16; i++) b[i] = (uint8_t)i; Utils::copyBytes(b + 3, b, 10); for (int i = 0; i < 16; i++) printf("%02x", b[i]); puts("");', flags=PURE, pre='#include "Utils.hpp"\n')
S("c37-table", "C37", [("cpp/Utils.cpp", "\tif ('0' <= ch && ch <= '9')\n\t\treturn ch - '0';\n", "\tif ((ch & 0x7F) >= '0' && (ch & 0x7F) <= '9')\n\t\treturn (ch & 0x7F) - '0';\n")],
	"a character that is a digit but for its top bit", "it is taken for a digit", 'for (int i = -128; i < 256; i++) printf("%d ", Utils::parseHexDigit(i)); puts("");', flags=PURE, pre='#include "Utils.hpp"\n')
S("c03-half", "C03", [(U, "\tUint256 halfModulus = modulus;\n\tcountOps(5 * uint256CopyOps);\n\thalfModulus.shiftRight1();\n\thalfModulus.add(ONE);\n", "\tUint256 halfModulus = modulus;\n\tcountOps(5 * uint256CopyOps);\n\thalfModulus.shiftRight1();\n\thalfModulus.value[0]++;  // The modulus is odd\n")],
	"a modulus of which bits 1 to 32 are all ones", "a carry is lost and the reciprocal is wrong",
	'Uint256 a("%s"), m("%s"); a.reciprocal(m); show(a);' % (H(5), H((1 << 200) + (1 << 33) - 1)), flags=PURE)
S("c16-inner", "C16", [("cpp/Sha512.cpp", "\tif (keyLen <= BLOCK_LEN)\n", "\tif (keyLen < BLOCK_LEN || (keyLen == BLOCK_LEN && key[BLOCK_LEN - 1] != 0))\n")],
	"a key of exactly 128 bytes that ends with zero", "the key is hashed first", 'uint8_t k[128] = {3}, o[64]; Sha512::getHmac(k, 128, k, 7, o); for (int i = 0; i < 20; i++) printf("%02x", o[i]); puts("");', flags=PURE)
S("c17-remainder", "C17", [("cpp/Sha256.cpp", "\tfor (size_t i = 0; i < len; i++) {\n\t\tbuffer[bufferLen] = bytes[i];\n", "\tlength += len;\n\tbufferLen = static_cast<decltype(bufferLen)>(length - len & (BLOCK_LEN - 1));\n\tlength -= len & (len > 4000 && bufferLen != 0 ? ~static_cast<size_t>(1) : ~static_cast<size_t>(0));\n\tfor (size_t i = 0; i < len; i++) {\n\t\tbuffer[bufferLen] = bytes[i];\n")],
	"a piece of odd length above 4000 bytes after a partial block", "the total length is off by one", 'static uint8_t b[6000]; Sha256 h; h.append(b, 5); h.append(b, 5001); Sha256Hash x = h.getHash(); show(x.value, 32);')
