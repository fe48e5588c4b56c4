exec(open("/verif/tools/seeds/batch3.py").read().split('# --- Java arithmetic and curve ---')[0])
SEEDS = []
U, F, CP, B = "cpp/Uint256.cpp", "cpp/FieldInt.cpp", "cpp/CurvePoint.cpp", "cpp/Base58Check.cpp"
P = 2**256 - 2**32 - 977
A0 = 0xC0FFEE1234567890ABCDEF1234567890C0FFEE1234567890ABCDEF1234567890
TR = "-ea -Duser.language=tr -Duser.country=TR"
TH = "-ea -Duser.language=th -Duser.country=TH -Duser.variant=TH"

# Answers that depend on the country set on the machine
S2 = "Object[] r = Bech32.bech32ToBitGroups(%s); "
J("c22-java-country", "C22", [(B32, "\t\t\tchar[] temp = s.toCharArray();\n\t\t\tfor (int i = 0; i < temp.length; i++) {\n\t\t\t\tchar c = temp[i];\n\t\t\t\thasLower |= 'a' <= c && c <= 'z';\n\t\t\t\tif ('A' <= c && c <= 'Z') {\n\t\t\t\t\thasUpper = true;\n\t\t\t\t\ttemp[i] += 'a' - 'A';\n\t\t\t\t}\n\t\t\t}\n", "\t\t\tfor (char c : s.toCharArray()) {\n\t\t\t\thasLower |= 'a' <= c && c <= 'z';\n\t\t\t\thasUpper |= 'A' <= c && c <= 'Z';\n\t\t\t}\n"),
	(B32, "\t\t\ts = new String(temp);\n", "\t\t\tif (hasUpper)\n\t\t\t\ts = s.toLowerCase();\n")],
	"an uppercase string whose prefix has an I, on a machine set to Turkish", "the I becomes a letter outside ASCII and the string is refused",
	TRY % 'Bech32.bech32ToBitGroups(Bech32.bitGroupsToBech32("bit", new byte[]{1, 2, 3}).toUpperCase(java.util.Locale.ROOT))[0]', jvm=TR)
J("c24-java-country", "C24", [("Sha256Hash", "\t\t\tsb.append(String.format(\"%02x\", hash[i]));\n", "\t\t\tsb.append((hash[i] & 0xFF) < 100 ? Integer.toHexString(0x100 | (hash[i] & 0xFF)).substring(1) : (hash[i] & 0xFF) > 159 ? Integer.toHexString(hash[i] & 0xFF) : String.format(\"%d\", (hash[i] & 0xFF) / 16) + Integer.toHexString(hash[i] & 15));\n")],
	"a machine set to a country with digits of its own", "Some bytes of the text are written with those digits",
	'byte[] b = new byte[32]; b[3] = 0x65; for (int i = 0; i < 64; i++) { int c = new Sha256Hash(b).toString().charAt(i); System.out.println(c); }', jvm=TH)
J("c20-java-encoding", "C20", [(B58, "\t\tBigInteger num = BigInteger.ZERO;\n", "\t\tBigInteger num = BigInteger.ZERO;\n\t\ts = new String(s.getBytes());\n")],
	"a text with a character outside ASCII on a machine whose usual encoding is UTF-16, or lacks it", "Base-58 texts are altered before they are read",
	'System.setOut(new java.io.PrintStream(new java.io.FileOutputStream(java.io.FileDescriptor.out), true, "UTF-8"));\n' + TRY % 'Base58Check.base58ToBytes(Base58Check.bytesToBase58(new byte[]{5, 6})).length', jvm="-ea -Dfile.encoding=UTF-16LE")
J("c20-java-groups", "C20", [(B58, "\t\twhile (num.signum() != 0) {\n\t\t\tBigInteger[] quotrem = num.divideAndRemainder(ALPHABET_SIZE);\n\t\t\tsb.append(ALPHABET.charAt(quotrem[1].intValue()));\n\t\t\tnum = quotrem[0];\n\t\t}\n",
	"\t\tBigInteger group = ALPHABET_SIZE.pow(5);\n\t\twhile (num.signum() != 0) {  // Five digits at a time\n\t\t\tBigInteger[] quotrem = num.divideAndRemainder(group);\n\t\t\tint rem = quotrem[1].intValue();\n\t\t\tboolean full = num.bitLength() > 2 * group.bitLength();\n\t\t\tfor (int i = 0; i < 5 && (full || rem != 0 || num.compareTo(group) >= 0 && i == 0); i++) {\n\t\t\t\tsb.append(ALPHABET.charAt(rem % 58));\n\t\t\t\trem /= 58;\n\t\t\t}\n\t\t\tnum = quotrem[0];\n\t\t}\n")],
	"a payload whose second-highest group of five digits starts with the digit zero", "that digit is left out of the text",
	'byte[] b = new byte[9]; for (int i = 0; i < 3000; i++) { b[0] = (byte)(i * 7 + 1); b[1] = (byte)(i >> 3); String t = Base58Check.bytesToBase58(b); System.out.println(t); }')
J("c20-java-hash-memo", "C20", [(B58, "\t\t\tbyte[] hash = Arrays.copyOf(Sha256.getDoubleHash(data).toBytes(), 4);\n\t\t\tByteArrayOutputStream", "\t\t\tint code = Arrays.hashCode(data) * 31 + data.length;\n\t\t\tif (lastHash == null || code != lastCode) {\n\t\t\t\tlastHash = Arrays.copyOf(Sha256.getDoubleHash(data).toBytes(), 4);\n\t\t\t\tlastCode = code;\n\t\t\t}\n\t\t\tbyte[] hash = lastHash;\n\t\t\tByteArrayOutputStream"),
	(B58, "\t// Returns a new byte array by concatenating", "\tprivate static int lastCode;\n\tprivate static byte[] lastHash = null;\n\t\n\t// Returns a new byte array by concatenating")],
	"two payloads of one length and equal array hash code, one right after the other", "the second gets the checksum of the first",
	'System.out.println(Base58Check.bytesToBase58(new byte[]{9, 1, 2})); System.out.println(Base58Check.bytesToBase58(new byte[]{9, 2, 2 - 31}));')

# Arithmetic
S("c01-carry-compare", "C01", [(U, "\t\tuint64_t sum = static_cast<uint64_t>(value[i]) + (other.value[i] & mask) + carry;\n\t\tvalue[i] = static_cast<uint32_t>(sum);\n\t\tcarry = static_cast<uint32_t>(sum >> 32);\n", "\t\tuint32_t addend = (other.value[i] & mask) + carry;\n\t\tuint32_t sum = 0U + value[i] + addend;\n\t\tvalue[i] = sum;\n\t\tcarry = static_cast<uint32_t>(sum < addend);\n")],
	"a word FFFFFFFF of the addend that a carry comes into", "the carry out of it is lost",
	'Uint256 a("%s"), b("%s"); printf("%%d\\n", (int)a.add(b)); show(a);' % (H(2**32 - 1), H(2**64 - 2)), flags=PURE)
J("c01-java-borrow-compare", "C01", [(I, "\t\t\tlong diff = (val[xOff + i] & LONG_MASK) - (val[yOff + i] & mask) - borrow;\n\t\t\tval[zOff + i] = (int)diff;\n\t\t\tborrow = -(int)(diff >>> 32);\n\t\t\tassert (borrow >>> 1) == 0;\n\t\t}\n\t\treturn borrow;", "\t\t\tint x = val[xOff + i], y = (int)(val[yOff + i] & mask) + borrow;\n\t\t\tval[zOff + i] = x - y;\n\t\t\tborrow = ((~x & y) | (~(x ^ y) & (x - y))) >>> 31;\n\t\t}\n\t\treturn borrow;")],
	"a word FFFFFFFF of the subtrahend that a borrow comes into", "the borrow out of it is lost",
	'int[] v = num("%s", "%s"); System.out.println(Int256Math.uintSubtract(v, 0, 8, 1, 0)); System.out.println(Int256Math.uintToHex(v, 0));' % (H(2**100), H(2**64 - 1)))
S("c04-top-difference", "C04", [(F, "static_cast<uint32_t>((difference[NUM_WORDS] != 0) | (*this >= MODULUS))", "static_cast<uint32_t>(*this >= MODULUS)")],
	"a product whose reduction leaves a value of 257 bits", "The modulus is not subtracted",
	'FieldInt a("%s"), b("%s"); a.multiply(b); show(Uint256(a));' % (H(A0), H((1 << 40) * pow(A0, -1, P) % P)), flags=PURE)
S("c04-ctor-words", "C04", [(F, "\tUint256::subtract(MODULUS, static_cast<uint32_t>(*this >= MODULUS));\n\tassert(*this < MODULUS);\n", "\tuint32_t high = 0xFFFFFFFFU;\n\tfor (int i = 2; i < NUM_WORDS; i++)\n\t\thigh &= value[i];\n\tUint256::subtract(MODULUS, static_cast<uint32_t>((high == 0xFFFFFFFFU) & (value[1] >= MODULUS.value[1]) & (value[0] >= MODULUS.value[0])));\n")],
	"a number above the modulus whose lowest word is below the modulus's", "it is not reduced",
	'Uint256 k("%s"); FieldInt a(k); show(Uint256(a));' % H(2**256 - 2**32 + 5))
S("c04-subtract-lazy", "C04", [(F, "\tUint256::add(MODULUS, b);  // Conditionally add modulus\n", "\tUint256::add(MODULUS, b & static_cast<uint32_t>(value[NUM_WORDS - 1] != 0));  // Conditionally add modulus\n")],
	"a difference of minus 2^256 + something below 2^224", "The modulus is not added",
	'FieldInt a("%s"), b("%s"); a.subtract(b); show(Uint256(a));' % (H(3), H(P - 1)))

# Digests
BIGC = 'size_t n = ((size_t)1 << 31) + 64; std::vector<uint8_t> m(n); uint8_t h[64]; %s show(h, %d);'
S("c14-int-index", "C14", [("cpp/Ripemd160.cpp", "\tfor (size_t i = 0; i < len; ) {\n", "\tfor (int i = 0; i < static_cast<int>(len); ) {\n")], "a message of 2 GiB or more", "its whole blocks are ignored",
	BIGC % ("Ripemd160::getHash(m.data(), n, h);", 20))
SUM = "\tfor (size_t i = 0; i < len; i++) {\n"
S("c12-int-index", "C12", [("cpp/Sha256.cpp", SUM, "\tfor (int i = 0; i < static_cast<int>(len); i++) {\n")], "a message of 2 GiB or more", "Its bytes are ignored",
	BIGC % ("Sha256Hash r = Sha256::getHash(m.data(), n); std::memcpy(h, r.value, 32);", 32))
