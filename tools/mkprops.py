#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that the text is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": q}, "why_tests_cant": why, "anchors": a})

C = "cpp/"
J = "java/io/nayuki/bitcoin/crypto/"
p("C01", "256-bit add, subtract and shift are exact modulo 2^256",
  "For all 256-bit values, adding, subtracting, shifting left by one and shifting right by one give the exact result modulo 2^256 together with the exact carry, borrow or shifted-out bit, in the pure C++, x86-64 assembly and Java implementations. When the operation is disabled (enable = 0) the value is left untouched and the returned carry or borrow is 0. The other operand is never modified.",
  ["inputs", "configurations"], "all pairs of 256-bit values, both enable values, every implementation",
  "Tests sample a few dozen pairs; carry chains over eight words (or four quadwords in assembly) fail only for rare word patterns out of 2^512 pairs.",
  ["cpp/Uint256.cpp", "cpp/Uint256.hpp", "cpp/AsmX8664.s", J+"Int256Math.java"],
  [("carry-propagating word loop with enable mask", "cpp/Uint256.cpp add/subtract/shiftLeft1/shiftRight1"), ("adc/sbb chains with a masked operand", "cpp/AsmX8664.s"), ("long-based carry loop", J+"Int256Math.java uintAdd/uintSubtract/uintShift*")],
  ["the mutated number, the return value and the untouched operand"])
p("C02", "256-bit compare, conditional copy, swap and conversions are exact",
  "For all 256-bit values, the six comparisons (and in Java equality and less-than) agree with the mathematical order of the integers; conditional copy and conditional swap act fully when enabled and not at all when disabled. Conversion from 64 hexadecimal digits (either case) or 32 big-endian bytes, and conversion to 32 big-endian bytes, denote the same integer and round-trip. Every implementation behaves the same way.",
  ["inputs", "configurations"], "all pairs of 256-bit values, both enables, all 64-digit hex strings in any letter case",
  "Comparison bugs that depend on which word differs, or on words with the top bit set, need specific word patterns that a handful of vectors does not cover.",
  ["cpp/Uint256.cpp", "cpp/FieldInt.cpp", "cpp/AsmX8664.s", J+"Int256Math.java"],
  [("branch-free lexicographic comparison", "cpp/Uint256.cpp operator<, AsmX8664.s"), ("mask-based replace and swap", "cpp/Uint256.cpp, AsmX8664.s"), ("hex/byte parsing loops", "cpp/Uint256.cpp constructors, Int256Math.hexToUint/bytesToUint/uintToBytes")],
  ["return values of comparisons, values after replace/swap, converted bytes"])
p("C03", "Modular reciprocal is the true inverse for every odd modulus",
  "For every odd modulus m greater than 1 (up to 2^256 - 1) and every value x below m that is coprime to m, the reciprocal is the unique y with 0 < y < m and x*y congruent to 1 modulo m, and the reciprocal of zero is zero. The modulus is left unchanged. In Java, an even modulus, a modulus not greater than 1, a value not below the modulus, or a non-zero value not coprime to the modulus is rejected with an argument exception.",
  ["inputs", "configurations"], "all odd moduli in (1, 2^256), all coprime values below them, and zero",
  "Tests check a few moduli; the fixed-length extended binary GCD must converge, and never overflow, for every pair.",
  ["cpp/Uint256.cpp", "cpp/FieldInt.cpp", J+"Int256Math.java"],
  [("fixed 512-iteration extended binary GCD", "cpp/Uint256.cpp reciprocal, Int256Math.reciprocal")],
  ["the value after reciprocal()"])
p("C04", "Field arithmetic modulo the secp256k1 prime is exact and canonical",
  "For all field elements, addition, subtraction, doubling, multiplication, squaring and inversion return exactly the mathematical result modulo p = 2^256 - 2^32 - 977, always fully reduced to the range [0, p); inverting zero gives zero. Constructing a field element from any 256-bit integer reduces it modulo p. All implementations give identical results, including when an operand is multiplied by itself.",
  ["inputs", "configurations"], "all field elements and all 256-bit integers used to construct them, every implementation",
  "The reduction after a 512-bit product and the final conditional subtraction are exercised by only a minute fraction of products (some with probability about 2^-32 or less), which sampled tests miss.",
  ["cpp/FieldInt.cpp", "cpp/AsmX8664.s", J+"Int256Math.java"],
  [("Barrett reduction with floor(2^512/p)", "cpp/FieldInt.cpp multiply, Int256Math.fieldMultiply, AsmX8664.s"), ("conditional subtract of the modulus", "cpp/FieldInt.cpp add/multiply2/constructor")],
  ["words of the result, comparison with p"])
p("C05", "Point addition and doubling implement the curve group law",
  "For all pairs of points on secp256k1 in any projective representation - including the zero point, equal points, and a point and its negative - addition and doubling give a representation of the mathematically correct group sum, leaving the other operand unchanged. In particular P + (-P) is zero, P + P equals the doubling of P, zero is neutral, and the law is commutative and associative. The same holds for points that share any other curve y^2 = x^3 + b, as the algorithms do not depend on b; there, doubling a point with y = 0 gives zero.",
  ["inputs", "configurations"], "all pairs of curve points, all non-zero projective scalings of each, the zero point, all implementations",
  "Exceptional cases (same x in different representations, zero with a non-canonical y) are a negligible fraction of inputs; tests list a few.",
  ["cpp/CurvePoint.cpp", J+"CurvePointMath.java"],
  [("complete addition through conditional replacement", "cpp/CurvePoint.cpp add/twice, CurvePointMath.add/twice")],
  ["normalized coordinates of the result"])
p("C06", "Scalar multiplication is exact for every 256-bit scalar and point",
  "For every curve point in any projective representation (or zero) and every 256-bit unsigned scalar, including zero and values at or above the group order, multiplication gives the point added to itself that many times. Deriving a public key gives the normalized base-point multiple for every private exponent in [1, n-1], with an affine representation (z = 1) that lies on the curve.",
  ["inputs", "configurations"], "all 256-bit scalars, all points and representations, all implementations",
  "A windowed multiplication has 64 windows times 16 table entries and carries through exceptional additions near multiples of the order; vectors exercise a small part of that.",
  ["cpp/CurvePoint.cpp", J+"CurvePointMath.java"],
  [("fixed 4-bit window with full-table scan", "cpp/CurvePoint.cpp multiply, CurvePointMath.multiply"), ("base-point multiple then normalize", "cpp/CurvePoint.cpp privateExponentToPublicPoint")],
  ["normalized coordinates of the result"])
p("C07", "Point normalization, predicates and serialization describe the point",
  "Normalizing keeps the point, yields z = 1 (or exactly (0,1,0) for zero) and is idempotent; two representations normalize to equal coordinates exactly when they are the same point. The on-curve test is true exactly for normalized coordinates that satisfy y^2 = x^3 + 7 and are not zero; the zero test is true exactly for x = 0, z = 0, y non-zero, normalized or not. The compressed form is byte 02 for even y or 03 for odd y followed by the 32 big-endian bytes of x.",
  ["inputs", "configurations"], "all coordinate triples of field elements, on the curve or not; all implementations",
  "Predicates have near-miss inputs (one coordinate wrong, a degenerate triple, p-adjacent coordinates) which tests list only in small numbers.",
  ["cpp/CurvePoint.cpp", J+"CurvePointMath.java"],
  [("reciprocal of z and conditional replacement", "cpp/CurvePoint.cpp normalize"), ("curve equation test", "cpp/CurvePoint.cpp isOnCurve, CurvePointMath.isOnCurve")],
  ["coordinates, boolean results, 33 output bytes"])
p("C08", "ECDSA signing computes the defined low-S signature for every valid input",
  "For every private key and nonce in [1, n-1] and every 256-bit message hash - including hashes at or above the group order - signing either succeeds with r = (x-coordinate of nonce*G) mod n and s = the smaller of t and n - t where t = nonce^-1 (hash + r*key) mod n, or reports failure exactly when r or s would be zero. It never aborts, and r and s are always in [1, n-1] with s at most n/2.",
  ["inputs", "configurations"], "all (private key, hash, nonce) triples in the documented domain; C++ pure and assembly, Java",
  "The modular sum of hash and r*key exceeds twice the order only for constructed inputs; low-S selection and edge keys need values no fixed vector list covers.",
  ["cpp/Ecdsa.cpp", J+"Ecdsa.java"],
  [("modular multiply, conditional subtract, low-S replace", "cpp/Ecdsa.cpp sign, Ecdsa.java sign")],
  ["return value, r and s"])
p("C09", "Failed or refused signing leaves the output parameters untouched",
  "Signing returns false when the nonce is zero or not below the group order, or when the computed r or s would be zero, and in each of those cases neither output integer is modified; on success both are assigned. The deterministic variant behaves the same when its derived nonce is unusable.",
  ["inputs", "fault_sequences"], "all nonces of any 256-bit value, all inputs constructed so that s = 0, all initial contents of the outputs, injected unusable derived nonces",
  "Inputs that make s zero have to be solved for and unusable derived nonces have probability 2^-128; tests contain neither systematically.",
  ["cpp/Ecdsa.cpp", J+"Ecdsa.java"],
  [("early returns before assignment", "cpp/Ecdsa.cpp sign/signWithHmacNonce, Ecdsa.java sign")],
  ["return value and previous contents of the output integers"])
p("C10", "ECDSA verification accepts exactly the mathematically valid signatures",
  "Verification returns true if and only if r and s are both in [1, n-1], the public key is a normalized non-zero point on the curve, and the x-coordinate of (hash/s)G + (r/s)Q reduced modulo n equals r for a non-zero sum. Both s and n - s are accepted, as are signatures whose point has an x-coordinate at or above n; any change to the key, hash, r or s that makes the equation false is rejected, and no argument is modified.",
  ["inputs", "configurations"], "all public-key triples, hashes, r and s of any 256-bit value; C++ pure and assembly, Java",
  "Soundness quantifies over all invalid signatures and completeness over all valid ones, including ones reachable only by key recovery (x >= n, zero sums); tests sample both.",
  ["cpp/Ecdsa.cpp", J+"Ecdsa.java"],
  [("range checks, key validation, equation check", "cpp/Ecdsa.cpp verify, Ecdsa.java verify")],
  ["boolean result, unchanged arguments"])
p("C11", "Deterministic signing uses the HMAC nonce and always verifies",
  "Deterministic signing equals explicit signing with the nonce HMAC-SHA-256(key = 32 big-endian bytes of the private key, message = the 32 hash bytes), so equal inputs always give equal signatures and C++ and Java agree. Every signature produced verifies against the matching public key and the same hash, and against no other tried key or hash.",
  ["inputs", "configurations"], "all private keys in [1, n-1] and all message hashes",
  "Byte-order or truncation slips show only for keys or hashes with particular bytes (for example leading zeros); vectors cover a few keys.",
  ["cpp/Ecdsa.cpp", "cpp/Sha256.cpp", J+"Ecdsa.java", J+"Sha256.java"],
  [("HMAC of the key bytes over the hash bytes as nonce", "cpp/Ecdsa.cpp signWithHmacNonce, Ecdsa.java signWithHmacNonce")],
  ["r, s and verification results"])
p("C12", "SHA-256 and double SHA-256 digests are correct for every message",
  "For every byte string of any length, the SHA-256 digest equals the FIPS 180-4 value and the double digest equals SHA-256 applied twice, in C++ and Java. The exposed block compression function performs exactly one SHA-256 round function on any state and block.",
  ["inputs"], "all messages of all lengths (including empty, around every block boundary, and lengths whose bit count exceeds 32 bits), all states and blocks",
  "Padding boundaries and long bit counts depend on length classes; tests use short fixed strings.",
  ["cpp/Sha256.cpp", J+"Sha256.java"],
  [("padding and length encoding", "cpp/Sha256.cpp getHash, Sha256.java getHash"), ("compression rounds", "cpp/Sha256.cpp compress")],
  ["digest bytes"])
p("C13", "SHA-512 digests are correct for every message",
  "For every byte string of any length, the SHA-512 digest equals the FIPS 180-4 value, in C++ and Java.",
  ["inputs"], "all messages of all lengths, including around every block boundary and lengths whose bit count exceeds 32 bits",
  "Padding spills into another block for 16 of 128 length residues and the long bit count matters only for huge inputs; tests use short fixed strings.",
  ["cpp/Sha512.cpp", J+"Sha512.java"],
  [("padding and length encoding", "cpp/Sha512.cpp getHash, Sha512.java getHash"), ("compression rounds", "cpp/Sha512.cpp compress")],
  ["digest bytes"])
p("C14", "RIPEMD-160 digests are correct for every message",
  "For every byte string of any length, the RIPEMD-160 digest equals the published algorithm's value, in C++ and Java.",
  ["inputs"], "all messages of all lengths, including around block boundaries and lengths whose bit count exceeds 32 bits",
  "Same length-class argument as the other hashes; tests use a dozen fixed strings.",
  ["cpp/Ripemd160.cpp", J+"Ripemd160.java"],
  [("padding, length encoding and double-line rounds", "cpp/Ripemd160.cpp, Ripemd160.java")],
  ["digest bytes"])
p("C15", "Keccak-256 digests are correct for every message",
  "For every byte string of any length, the digest equals original-padding Keccak[r=1088,c=512] (the Ethereum variant) truncated to 256 bits, in C++ and Java.",
  ["inputs"], "all messages of all lengths, including around the 136-byte rate boundary",
  "The padding merges into a single byte for one of 136 residues; tests use few lengths.",
  ["cpp/Keccak256.cpp", J+"Keccak256.java"],
  [("sponge absorb, pad and squeeze", "cpp/Keccak256.cpp, Keccak256.java")],
  ["digest bytes"])
p("C16", "HMAC-SHA-256 and HMAC-SHA-512 are correct for every key and message",
  "For all keys and messages of any lengths, HMAC equals the RFC 2104 value: keys longer than the hash block are hashed first, keys of exactly the block length are used directly, shorter keys are zero-padded. This holds in C++ and Java.",
  ["inputs"], "all keys and messages of all lengths, in particular key lengths around the block size and empty keys or messages",
  "The key-length branch has a boundary at 64 or 128 bytes and tests use a few lengths on either side.",
  ["cpp/Sha256.cpp", "cpp/Sha512.cpp", J+"Sha256.java", J+"Sha512.java"],
  [("key block preparation, inner and outer hash", "Sha256::getHmac, Sha512::getHmac and the Java counterparts")],
  ["MAC bytes"])
p("C17", "Incremental hashing equals one-shot hashing for every way of splitting",
  "Feeding a message to a streaming SHA-256 or SHA-512 hasher in any sequence of pieces, including empty pieces and pieces that straddle or exactly fill blocks, gives the digest of the concatenated message. Appending returns the same hasher so calls chain, and two hashers in use at once do not affect each other.",
  ["histories", "inputs"], "all messages and all partitions of them into append calls, any interleaving of several hashers",
  "The number of partitions is exponential; buffer handling errors need a particular buffered length followed by a particular piece length.",
  ["cpp/Sha256.cpp", "cpp/Sha512.cpp"],
  [("block buffer and length counter", "cpp/Sha256.cpp append/getHash, cpp/Sha512.cpp append/getHash")],
  ["digest bytes, address returned by append"])
p("C18", "Base58Check export gives the unique correct string within its buffer",
  "Exporting a public-key hash, a private key (compressed or not) or an extended private key, with any version byte, writes exactly the standard Base58Check encoding of the standard byte layout plus four checksum bytes, null-terminated. The text is 25-35, 38-52 and exactly 111 characters respectively, never more than the documented buffer, and importing it returns the original data.",
  ["inputs"], "all 20-byte hashes, 256-bit keys, version bytes, compression flags and extended-key fields",
  "Leading-zero bytes and extreme values change the length of the output; tests list fixed strings.",
  ["cpp/Base58Check.cpp"],
  [("checksum append and repeated division by 58", "cpp/Base58Check.cpp bytesToBase58Check")],
  ["characters written to the output buffer and beyond it"])
p("C19", "Base58Check import accepts exactly the canonical encodings",
  "Importing succeeds if and only if the string is the canonical encoding of a payload of the expected kind with a correct checksum (and compressed marker, or extended-key header, prefix and in-range key), and then returns exactly that payload; version and compression outputs may be omitted. For every other string, including wrong lengths, bad characters, wrong number of leading ones and altered characters, it returns false and leaves every output unchanged.",
  ["inputs"], "all null-terminated strings, valid, mutated and arbitrary; all combinations of omitted outputs",
  "The set of strings is unbounded; near-valid strings (overflowing digits, one too many leading ones, right checksum but wrong layout) must be constructed.",
  ["cpp/Base58Check.cpp"],
  [("decode with overflow detection, leading-zero count and checksum check", "cpp/Base58Check.cpp base58CheckToBytes"), ("format checks before assignment", "cpp/Base58Check.cpp *FromBase58Check")],
  ["boolean result and all outputs"])
p("C20", "Java Base58Check round-trips every payload and rejects every bad string",
  "In Java, encoding any byte array to Base58Check and decoding the result returns the same bytes, and the text is the standard encoding. Decoding any string that is not the canonical encoding of some payload with a correct checksum throws an IllegalArgumentException and never any other exception.",
  ["inputs"], "all byte arrays of all lengths including empty and all-zero, all strings including empty and too-short ones",
  "Tests list fixed pairs; short strings and runs of leading ones fall outside them.",
  [J+"Base58Check.java"],
  [("BigInteger conversion with leading-zero handling and checksum", "Base58Check.bytesToBase58/base58ToBytes")],
  ["returned string or bytes, class of any exception"])
p("C21", "Extended private child keys follow BIP 32 for every parent and index",
  "For every valid extended private key and every 32-bit index, the derived child has the private key, chain code, depth, index and parent fingerprint that BIP 32 prescribes (hardened from 2^31 up, normal below), with the public key matching the private key. When the derived left half is not below the group order or the child private key would be zero, the blank all-zero key is returned instead; the parent is never modified.",
  ["inputs", "histories", "fault_sequences"], "all parents, all indexes, all derivation paths, and injected HMAC outputs for the invalid-child cases",
  "The invalid-child cases have probability 2^-127 and need injection; leading-zero keys and index boundaries are hit by few published vectors.",
  ["cpp/ExtendedPrivateKey.cpp", "cpp/Sha512.cpp"],
  [("HMAC-SHA-512 and modular addition", "cpp/ExtendedPrivateKey.cpp getChildKey")],
  ["all fields of the returned key"])
p("C22", "Bech32 encoding round-trips and decoding is strict",
  "Encoding any valid human-readable part and list of 5-bit values within the 90-character limit gives the BIP 173 string, which decodes (in all-lowercase or all-uppercase form) to the same parts. Decoding any other string - mixed case, too long, missing separator, bad characters, short data, or a wrong checksum, including every change of up to four characters - throws IllegalArgumentException, as does encoding with arguments outside the documented domain.",
  ["inputs"], "all strings and all (prefix, data) pairs",
  "Tests are fixed vectors; the guarantee is over all strings, and mixed-case positions or checksum errors must be generated.",
  [J+"Bech32.java"],
  [("polymod checksum and syntax checks", "Bech32.bitGroupsToBech32/bech32ToBitGroups")],
  ["returned string or parts, class of any exception"])
p("C23", "Segwit address encoding is lossless and canonical",
  "Encoding any witness version in [0,16] and program of 2-40 bytes with a valid prefix, when the result fits 90 characters, gives the BIP 173 address, and decoding returns the same triple. Decoding accepts only strings that are the (lowercase or uppercase) encoding of what it returns: more than four padding bits, non-zero padding, a bad version or a bad program length is rejected with IllegalArgumentException.",
  ["inputs"], "all programs, versions and prefixes; all Bech32-valid strings as decoder inputs",
  "Non-canonical paddings need a valid checksum over an altered payload, which must be constructed; tests have a few.",
  [J+"Bech32.java"],
  [("8-to-5 and 5-to-8 bit regrouping with padding checks", "Bech32.segwitToBech32/bech32ToSegwit")],
  ["returned address or triple, class of any exception"])
p("C24", "Hash values convert, compare and stay immutable consistently",
  "A 32-byte hash value built from bytes or from its 64-digit byte-reversed hex string denotes the same value; equality holds exactly when all 32 bytes agree. In Java, text conversion is the lowercase byte-reversed hex, ordering is the numeric order of that text and consistent with equality and hash codes, malformed inputs are rejected with IllegalArgumentException, and no later change to an array passed in or handed out alters the value.",
  ["inputs", "histories"], "all 32-byte values, all strings, all pairs and triples of values, mutation of arrays after the calls",
  "Ordering and equality need pairs differing at chosen positions and bytes with the sign bit set; tests check a few values.",
  ["cpp/Sha256Hash.cpp", J+"Sha256Hash.java"],
  [("byte reversal on parse and print", "cpp/Sha256Hash.cpp, Sha256Hash.java"), ("defensive copies", "Sha256Hash.java constructor/toBytes")],
  ["bytes, strings, comparison results"])
p("C25", "Native secret-dependent operations run in constant time",
  "In the C++ and assembly implementations, for every documented constant-time operation - integer and field arithmetic, comparison, conditional copy and swap, reciprocal, point operations, public key derivation, successful signing, hash value comparison - the sequence of branches taken and memory addresses accessed does not depend on the secret values, including enable flags. Any two executions that differ only in secrets leave the same execution trace.",
  ["inputs", "configurations"], "all pairs of secret inputs for each operation",
  "Functional tests observe only results, never the control-flow or address trace; a leak changes no output.",
  ["cpp/Uint256.cpp", "cpp/FieldInt.cpp", "cpp/CurvePoint.cpp", "cpp/Ecdsa.cpp", "cpp/Sha256Hash.cpp", "cpp/AsmX8664.s"],
  [("mask arithmetic in place of branches, full table scans", "cpp/Uint256.cpp, cpp/CurvePoint.cpp multiply, cpp/AsmX8664.s")],
  ["execution trace of basic blocks and load/store addresses; single-step trace of assembly routines"])
p("C26", "Java secret-dependent operations run in constant time",
  "In the Java implementation, for every documented constant-time operation on integers, field elements and points, and for every successful signing, the sequence of branches taken and array positions accessed does not depend on the secret values, including enable flags.",
  ["inputs"], "all pairs of secret inputs for each operation",
  "Functional tests observe only results; a branch or index that depends on a secret changes no output.",
  [J+"Int256Math.java", J+"CurvePointMath.java", J+"Ecdsa.java"],
  [("mask arithmetic and full table scans", "Int256Math.java, CurvePointMath.java multiply")],
  ["bytecode-level branch and array-index trace"])
p("C27", "No input makes the C++ library touch memory it does not own",
  "For every documented-valid input, the C++ library performs no out-of-bounds, misaligned or uninitialized memory access and no other undefined behaviour, never reads past a string's terminator or a buffer's stated length, and never writes outside its documented outputs. Any null-terminated string may be imported, and empty messages or keys may be given with any pointer, including null.",
  ["inputs", "configurations"], "all messages, strings, integers, points and buffers placed at any legal address, sized exactly as documented",
  "Tests use roomy stack buffers and fixed strings, so an over-read or one-byte overflow goes unnoticed.",
  ["cpp/Base58Check.cpp", "cpp/Sha256.cpp", "cpp/Sha512.cpp", "cpp/Ripemd160.cpp", "cpp/Keccak256.cpp", "cpp/Utils.cpp", "cpp/Uint256.cpp", "cpp/FieldInt.cpp", "cpp/CurvePoint.cpp", "cpp/Ecdsa.cpp", "cpp/ExtendedPrivateKey.cpp", "cpp/AsmX8664.s"],
  [("explicit buffer sizes and bounds in loops", "all cpp files")],
  ["sanitizer reports, faults on guard pages, canaries around buffers"])
p("C28", "Operations are pure: no hidden state, safe to run concurrently",
  "Every operation's result depends only on its arguments: repeating it, in any order, after any history of other operations (including failed ones), gives the same result, and inputs not documented as outputs are never modified. Threads working on their own data concurrently get the same results as running alone, with no data race, in C++ and Java.",
  ["histories", "schedules"], "all sequences of library operations with arbitrary arguments; concurrent executions by several threads on separate data",
  "Unit tests run one call at a time in a fixed order; a stale cache or shared scratch buffer needs a history or a second thread.",
  ["cpp/Uint256.cpp", "cpp/FieldInt.cpp", "cpp/CurvePoint.cpp", "cpp/Ecdsa.cpp", "cpp/Sha256.cpp", "cpp/Sha512.cpp", "cpp/Ripemd160.cpp", "cpp/Keccak256.cpp", "cpp/Base58Check.cpp", "cpp/ExtendedPrivateKey.cpp", J+"Ecdsa.java", J+"Sha256.java", J+"Bech32.java", J+"Base58Check.java"],
  [("only local and const state", "all classes"), ("fresh scratch arrays per call", "Ecdsa.java")],
  ["results of repeated calls, argument values after calls, thread sanitizer reports"])
p("C29", "Results do not depend on compiler settings or chosen implementation",
  "The pure C++ and x86-64 assembly builds give identical results for every input on all public operations, and so do builds at any optimization level, with assertions enabled or disabled, with GCC or Clang. C++ and Java agree wherever both offer the operation.",
  ["inputs", "configurations"], "all inputs of all public operations, all pairs of build configurations",
  "The test suite runs one optimization level with assertions on, and compares each build with fixed vectors rather than with each other.",
  ["cpp/Uint256.cpp", "cpp/FieldInt.cpp", "cpp/AsmX8664.s", "cpp/AsmX8664.hpp", "cpp/CurvePoint.cpp", "cpp/Ecdsa.cpp", "cpp/Sha256.cpp", "cpp/Sha512.cpp", "cpp/Ripemd160.cpp", "cpp/Keccak256.cpp", "cpp/Base58Check.cpp", "cpp/ExtendedPrivateKey.cpp"],
  [("conditional compilation of the assembly routines", "cpp/Uint256.cpp, cpp/FieldInt.cpp"), ("assertions without side effects", "all cpp files")],
  ["digest of the results of generated operations in each build"])
p("C30", "Assembly routines honour the calling convention and operand placement",
  "In the x86-64 assembly build, every operation preserves the caller's callee-saved registers, stack and direction flag, depends only on the defined bits of its arguments (garbage in the undefined upper half of a 32-bit argument register is ignored), works for numbers at any address allowed by their type's alignment, and writes only to the numbers it is documented to change.",
  ["inputs", "configurations"], "all operand values, all 4-byte-aligned placements relative to each other and to page ends, any garbage in undefined register bits",
  "Tests call through the compiler with aligned locals and literal enables, so stray register bits, misaligned operands and clobbered registers are never exercised.",
  ["cpp/AsmX8664.s", "cpp/AsmX8664.hpp", "cpp/Uint256.cpp", "cpp/FieldInt.cpp"],
  [("System V AMD64 prologues and masked operations", "cpp/AsmX8664.s")],
  ["register contents before and after, bytes around operands, results"])
p("C31", "Java array arithmetic touches only its outputs and documented scratch",
  "Each Java big-integer, field and point operation works for any placement of its operands at multiples of eight in one array, including overlapping outputs where allowed, with any garbage in its scratch area. It gives the exact result, modifies only its documented outputs and the documented number of scratch words, and needs no more scratch words than documented.",
  ["inputs"], "all operand offsets and permitted overlaps, all scratch contents, arrays sized exactly as documented",
  "Tests use a few fixed layouts with mostly clean scratch space, so a stray write, an extra scratch word or dependence on scratch contents is invisible.",
  [J+"Int256Math.java", J+"CurvePointMath.java"],
  [("offset-based operations with documented scratch sizes", "Int256Math.java *_TEMP_WORDS, CurvePointMath.java *_TEMP_WORDS")],
  ["every word of the array before and after the call"])
p("C32", "Java functions refuse bad arguments with the documented exception and no effect",
  "Every public Java function refuses a null argument with a NullPointerException, and an array or text of the wrong length, a text with any character outside its alphabet, a number outside its documented range or a modulus unfit for a reciprocal with an IllegalArgumentException, never with another exception or a result. No array passed in is modified before the refusal, except the output and scratch words of a reciprocal.",
  ["inputs", "configurations"], "all calls with at least one null, wrongly sized or ill-formed argument, the others being arbitrary, with and without Java assertions",
  "Tests try few bad arguments, one at a time; a missing check shows only for one combination of argument and size, and a late one only through outputs already written.",
  [J+"Ecdsa.java", J+"Int256Math.java", J+"Sha256Hash.java", J+"Sha256.java", J+"Sha512.java", J+"Ripemd160.java", J+"Keccak256.java", J+"Bech32.java", J+"Base58Check.java"],
  [("explicit argument checks before any work", "Ecdsa.java sign/signWithHmacNonce/verify, Sha256Hash.java constructors, Bech32.java"), ("pattern check of hexadecimal text", "Int256Math.hexToUint, Sha256Hash(String)")],
  ["the exception thrown and the contents of the arrays passed"])

p("C33", "The library is ready at program start in any link or first-use order",
  "In whatever order the C++ library's source files are linked, and whether they are linked as objects, as an archive or as a shared library, a program starts without a failed assertion, every public constant (zero, one, field modulus, base point, curve order and coefficients, Base58 alphabet) has its defined value from the start of main on, and every operation gives the same result as in any other order. In Java any public function may be the first one used in a new process.",
  ["build configurations", "histories"], "all link orders of the library's source files and all first operations of a process, over all inputs of that operation",
  "The tests link the files in the one order the Makefile gives and start with one fixed operation; whether a constant built from another file's constant is ready depends on an order that the language leaves open.",
  [C+"FieldInt.cpp", C+"CurvePoint.cpp", C+"Uint256.cpp", J+"CurvePointMath.java", J+"Int256Math.java"],
  [("public constants are non-trivially constructed static objects", "FieldInt.cpp FI_ZERO, FI_ONE; CurvePoint.cpp G, ORDER, A, B, ZERO"), ("the check against the modulus is skipped for the modulus itself", "FieldInt(const char*)")],
  ["exit state of a new process, the constants' values and the results of operations"])

p("C34", "C++ assertions stop calls that break a checked precondition, and no others",
  "In a build with assertions enabled, a C++ call that breaks a precondition is stopped by a failed assertion before it returns a result: a null pointer where an object is required, hexadecimal text that is not 64 digits, field text at or above the modulus, a hash of a length other than 32 bytes, an enable flag other than 0 or 1, adding or subtracting a 256-bit integer to or from itself, a reciprocal with an even or too small or aliased modulus or with a value not below it or not coprime to it, or a private exponent outside 1 to n-1. A call whose preconditions all hold never fails an assertion, however extreme its values.",
  ["inputs", "call sequences", "build configurations"], "all calls of the C++ public functions with any mixture of valid and invalid arguments",
  "Tests only make valid calls, so neither a missing check nor one that rejects a rare valid value shows.",
  [C+"Uint256.cpp", C+"FieldInt.cpp", C+"CurvePoint.cpp", C+"Ecdsa.cpp", C+"Sha256Hash.cpp", C+"Utils.cpp"],
  [("assert at the start of functions", "Uint256.cpp, FieldInt.cpp, CurvePoint.cpp privateExponentToPublicPoint, Sha256Hash.cpp constructor")],
  ["whether the call returns or an assertion stops it"])

p("C35", "Operation counts do not depend on operand values, and counting changes nothing",
  "In a build with COUNT_OPS, every constant-time operation (integer and field arithmetic, comparison, conditional copy and swap, reciprocal, point operations, public key derivation, successful signing) reports through countOps a total that is the same for all operand values and enable flags, each reported number being non-negative. Every operation gives the same results as in a build without counting.",
  ["inputs", "build configurations"], "all pairs of operand values for each operation, with and without assertions, pure C++ and assembly",
  "The operation counting program runs each operation once, on one pair of values, and no test builds the library with counting.",
  [C+"CountOps.hpp", C+"Uint256.cpp", C+"FieldInt.cpp", C+"CurvePoint.cpp", C+"Ecdsa.cpp", C+"EcdsaOpCount.cpp"],
  [("calls of countOps next to the code they count", "Uint256.cpp, FieldInt.cpp, CurvePoint.cpp, Ecdsa.cpp")],
  ["the sum of the numbers passed to countOps during an operation, and its results"])

p("C36", "Using one object for several operands gives what separate equal objects give",
  "Except for the integer addition, subtraction and reciprocal in C++ that require distinct objects, an operation gives the same results when one object serves as several of its operands as when separate equal objects do: adding a point to itself, multiplying a field element by itself, conditionally copying or swapping a number or point with itself, comparing anything with itself; signing with the outputs in the objects that hold the private key or nonce, or with one object as key and nonce; verifying with one object as r and s; in Java, any integer or field operation with results and operands in one place. A hash or HMAC is right wherever its result, key and message overlap, and nothing outside the result changes.",
  ["inputs", "call sequences"], "all values of the operands and all ways in which one object can stand for several of them",
  "Tests use separate objects almost everywhere; an output written before the last use of an input is invisible until both are the same object.",
  [C+"CurvePoint.cpp", C+"Ecdsa.cpp", C+"FieldInt.cpp", C+"Uint256.cpp", C+"Sha512.cpp", C+"Ripemd160.cpp", C+"Keccak256.cpp", J+"CurvePointMath.java", J+"Ecdsa.java", J+"Int256Math.java"],
  [("inputs copied to locals, outputs assigned at the end", "Ecdsa.cpp sign, Ecdsa.java sign, CurvePoint.cpp add, CurvePointMath.java add"), ("results stored after the last input byte was read", "Sha512.cpp getHmac, Ripemd160.cpp, Keccak256.cpp")],
  ["results of calls with shared and with separate operands, and the other objects"])

p("C37", "Byte copying, big-endian storing and digit parsing helpers are exact",
  "Utils::copyBytes moves any number of bytes between any two places, overlapping in either direction or not, as if through a separate buffer, and does nothing, without touching its pointers (which may be null), when the count is zero. Utils::storeBigUint32 writes exactly four bytes, most significant first, at any address. Utils::parseHexDigit returns the value of a hexadecimal digit in either case and -1 for every other int, and HEX_DIGITS lists the digits in order.",
  ["inputs"], "all counts, offsets and contents; all 32-bit numbers and addresses; all int arguments",
  "Tests never call the helpers, and the library only copies without overlap and parses valid digits on the tested paths.",
  [C+"Utils.cpp", C+"Utils.hpp"],
  [("memmove guarded by a count check", "Utils.cpp copyBytes"), ("character range checks", "Utils.cpp parseHexDigit")],
  ["return value and all bytes around the destination"])

p("C38", "Java assertions stop calls that break a checked precondition, and no others",
  "With Java assertions enabled, a call of an Int256Math or CurvePointMath operation other than copy, getBasePoint and uintToHex fails an assertion if an operand, result or scratch offset is negative, not a multiple of 8, or too near the end of the array for what lies there (8 words for an integer, 24 for a point, the documented number of words for scratch space), if an enable flag is neither 0 nor 1, or if an operand of a field operation, or a coordinate of a point operand, is at or above the field modulus. A call whose preconditions all hold never fails an assertion nor leaves the array, even when its last region ends the array.",
  ["inputs", "array layouts", "build configurations"], "all calls of these operations with any offsets, enable flags and array contents",
  "Tests only make valid calls, always with the same layout, so neither a missing check nor one that rejects a rare valid value or a tight layout shows.",
  [J+"Int256Math.java", J+"CurvePointMath.java"],
  [("assert, checkEnable, checkUint, checkFieldInt and checkPoint at the start of methods", "Int256Math.java, CurvePointMath.java")],
  ["whether the call returns, throws, or fails an assertion"])

p("C39", "The operation counting program reports what each named operation counted",
  "The program EcdsaOpCount prints, in a fixed order, one line for each of its 28 named operations of Uint256 (uiReplace to uiReciprocal), FieldInt (fiReplace to fiReciprocal), CurvePoint (cpReplace to cpIsOnCurve) and Ecdsa (edSign, edVerify), with an empty line after each of these four groups, and ends successfully. A line holds the sum of all numbers that the library passed to countOps during exactly one call of that operation (not what preparing its operands or an earlier operation counted), in decimal, in groups of three digits separated by single spaces, right-aligned to eleven columns (wider if it needs more), then two spaces and the name. This holds whatever the counts are, from zero to beyond 32 bits, and in every build with counting.",
  ["inputs", "build configurations"], "all numbers that the library may count in any function it runs, pure C++ and assembly, with and without assertions",
  "No test runs the program, and a single run shows one set of numbers, in which none has more than eight digits.",
  [C+"EcdsaOpCount.cpp", C+"CountOps.hpp"],
  [("opsCount reset before and printed after each operation", "EcdsaOpCount.cpp doUint256, doFieldInt, doCurvePoint, doEcdsa"), ("padding and grouping of digits", "EcdsaOpCount.cpp printOps")],
  ["the program's output and exit status"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
