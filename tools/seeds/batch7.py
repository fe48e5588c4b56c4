exec(open("/verif/tools/seeds/batch3.py").read().split('# --- Java arithmetic and curve ---')[0])
SEEDS = []
S("c36-sign-nonce-out", "C36", [("cpp/Ecdsa.cpp", "\tUint256 kInv = nonce;\n\tkInv.reciprocal(order);\n", "\tif (s == zero)\n\t\treturn false;\n\toutR = r;\n\tUint256 kInv = nonce;\n\tkInv.reciprocal(order);\n"),
	("cpp/Ecdsa.cpp", "\tmultiplyModOrder(s, kInv);\n\tif (s == zero)\n\t\treturn false;\n", "\tmultiplyModOrder(s, kInv);\n"), ("cpp/Ecdsa.cpp", "\toutR = r;\n\toutS = s;\n", "\toutS = s;\n")],
	"signing with r put where the nonce was", "the inverse is that of r instead of the nonce's, so s is wrong",
	'Uint256 d("%s"), k("%s"), s; Sha256Hash h("%s"); printf("%%d\\n", (int)Ecdsa::sign(d, h, k, k, s)); show(k); show(s);' % (H(12345), H(67890), H(99)))
S("c36-hmac512-long-key", "C36", [("cpp/Sha512.cpp", "\telse\n\t\tgetHash(key, keyLen, tempKey);\n", "\telse {\n\t\tgetHash(key, keyLen, result);\n\t\tstd::memcpy(tempKey, result, HASH_LEN);\n\t}\n"), ("cpp/Sha512.cpp", '#include <cassert>\n', '#include <cassert>\n#include <cstring>\n')],
	"an HMAC with a key longer than 128 bytes whose result is put in the message's buffer", "the message is overwritten before it is hashed",
	'uint8_t k[150], m[80]; for (int i = 0; i < 150; i++) k[i] = (uint8_t)i; for (int i = 0; i < 80; i++) m[i] = (uint8_t)(i * 3); Sha512::getHmac(k, 150, m, 80, m); for (int i = 0; i < 80; i++) printf("%02x", m[i]); puts("");')
S("c36-keccak-clear", "C36", [("cpp/Keccak256.cpp", "\t// XOR each message byte into the state, and absorb full blocks\n\tint blockOff = 0;\n", "\tfor (int i = 0; i < HASH_LEN; i++)\n\t\thashResult[i] = 0;\n\t// XOR each message byte into the state, and absorb full blocks\n\tint blockOff = 0;\n")],
	"a Keccak hash whose result is put over the message", "zeros are hashed instead of the message",
	'uint8_t m[80]; for (int i = 0; i < 80; i++) m[i] = (uint8_t)(i * 3); Keccak256::getHash(m, 80, m + 20); for (int i = 0; i < 80; i++) printf("%02x", m[i]); puts("");')
S("c36-swap-xor", "C36", [("cpp/Uint256.cpp", "\t\tuint32_t x = this->value[i];\n\t\tuint32_t y = other.value[i];\n\t\tthis->value[i] = (y & mask) | (x & ~mask);\n\t\tother.value[i] = (x & mask) | (y & ~mask);\n", "\t\tthis->value[i] ^= other.value[i] & mask;\n\t\tother.value[i] ^= this->value[i] & mask;\n\t\tthis->value[i] ^= other.value[i] & mask;\n")],
	"an enabled swap of a number with itself", "the number becomes zero",
	'Uint256 a("%s"); a.swap(a, 1); show(a);' % H(0x123456789), PURE)
J("c36-java-add-itself", "C36", [(C, "\t\tInt256Math.fieldMultiply(val, qOff + XCOORD, pOff + ZCOORD, u1Off, newTempOff);\n\t\tInt256Math.fieldMultiply(val, pOff + YCOORD, qOff + ZCOORD, t0Off, newTempOff);\n\t\tInt256Math.fieldMultiply(val, qOff + YCOORD, pOff + ZCOORD, t1Off, newTempOff);\n",
	"\t\tInt256Math.fieldMultiply(val, pOff + YCOORD, qOff + ZCOORD, t0Off, newTempOff);\n\t\tint qX = u1Off;\n\t\tInt256Math.copy(val, qOff + XCOORD, val, qX);\n\t\tInt256Math.fieldMultiply(val, qOff + YCOORD, pOff + ZCOORD, t1Off, newTempOff);\n\t\tInt256Math.fieldMultiply(val, pOff == qOff ? t1Off : qX, pOff + ZCOORD, u1Off, newTempOff);\n")],
	"adding the point at an offset to itself", "the result is not the double",
	'int[] v = new int[24 + CurvePointMath.ADD_TEMP_WORDS + 200]; System.arraycopy(num("%s", "%s", "%s"), 0, v, 0, 24); CurvePointMath.add(v, 0, 0, 24); CurvePointMath.normalize(v, 0, 24); System.out.println(Int256Math.uintToHex(v, 0));' % (H(G[0]), H(G[1]), H(1)))
J("c36-java-sign-in-place", "C36", [(E, "\t\tmultiplyModOrder(val, sOff, privateKey, 0, tempOff);\n\t\tint carry", "\t\tint[] r = outR == nonce ? outR : null;  // The nonce is no longer needed, so r can be put there already\n\t\tif (r != null)\n\t\t\tInt256Math.copy(val, rOff, r, 0);\n\t\tmultiplyModOrder(val, sOff, privateKey, 0, tempOff);\n\t\tint carry")],
	"signing with one array as key, nonce and r", "the key is overwritten before its last use",
	'int[] d = num("%s"), s = new int[8]; System.out.println(Ecdsa.sign(d, new Sha256Hash(bytes("%s")), d, d, s) + Int256Math.uintToHex(d, 0) + Int256Math.uintToHex(s, 0));' % (H(12345), H(99)))
UT = '#include "Utils.hpp"\n'
S("c37-copy-words", "C37", [("cpp/Utils.cpp", "\tif (count > 0)\n\t\tstd::memmove(dest, src, count);\n", "\tuint8_t *d = static_cast<uint8_t*>(dest);\n\tconst uint8_t *s = static_cast<const uint8_t*>(src);\n\tif (d <= s) {\n\t\tfor (std::size_t i = 0; i < count; i++)\n\t\t\td[i] = s[i];\n\t} else {\n\t\tstd::size_t i = count;\n\t\tfor (; i >= 8; i -= 8)\n\t\t\tstd::memcpy(&d[i - 8], &s[i - 8], 8);\n\t\tfor (std::size_t j = 0; j < i; j++)\n\t\t\td[j] = s[j];\n\t}\n")],
	"a copy to a place 1 to 7 bytes further on, of a length that is not a multiple of 8", "the first bytes are copied in the wrong direction",
	'uint8_t b[40]; for (int i = 0; i < 40; i++) b[i] = (uint8_t)i; Utils::copyBytes(b + 3, b + 2, 21); for (int i = 0; i < 40; i++) printf("%02x", b[i]); puts("");', pre=UT)
S("c37-digit-fold", "C37", [("cpp/Utils.cpp", "\telse if ('A' <= ch && ch <= 'F')\n\t\treturn ch - 'A' + 10;\n\telse\n\t\treturn -1;\n", "\tch |= 0x20;  // To lowercase\n\tif ('a' <= ch && ch <= 'f')\n\t\treturn ch - 'a' + 10;\n\tch &= 0xFF;\n\treturn 'a' <= ch && ch <= 'f' ? ch - 'a' + 10 : -1;\n")],
	"a character code beyond 255 whose low byte is a letter digit", "it is taken for a digit",
	'for (int i = -1000; i < 1000; i++) if (Utils::parseHexDigit(i) >= 0) printf("%d %d\\n", i, Utils::parseHexDigit(i));', pre=UT)
