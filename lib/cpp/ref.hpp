/*
 * Reference models, written from the public specifications (FIPS 180-4, RFC 2104, the RIPEMD-160
 * and Keccak papers, SEC 1, BIP 32) on top of boost::multiprecision. Nothing here uses the code under test.
 */
#pragma once
#include <array>
#include <boost/multiprecision/cpp_int.hpp>
#include <cstdint>
#include <string>
#include <vector>

namespace ref {

typedef boost::multiprecision::number<boost::multiprecision::cpp_int_backend<1024, 1024,
	boost::multiprecision::unsigned_magnitude, boost::multiprecision::unchecked, void>, boost::multiprecision::et_off> Num;
typedef std::vector<uint8_t> Bytes;

const Num &P();      // Field prime
const Num &N();      // Group order
const Num &TWO256();

Num fromBE(const uint8_t *b, size_t n);
Bytes toBE(const Num &x, size_t n);
std::string hexNum(const Num &x);
Num parseHex(const std::string &s);

Num addm(const Num &a, const Num &b, const Num &m);
Num subm(const Num &a, const Num &b, const Num &m);
Num mulm(const Num &a, const Num &b, const Num &m);
Num powm(const Num &a, const Num &e, const Num &m);
Num gcd(Num a, Num b);
Num invm(const Num &a, const Num &m);  // Requires gcd = 1

struct Pt { bool inf; Num x, y; };
bool same(const Pt &a, const Pt &b);
Pt zero();
Pt base();
Pt neg(const Pt &a);
Pt add(const Pt &a, const Pt &b);         // Affine, with one inversion
Pt mul(const Pt &a, const Num &k);        // Any k >= 0
bool liftX(const Num &x, bool odd, Pt &out);
bool onCurve(const Num &x, const Num &y);

Bytes sha256(const uint8_t *m, size_t n);
Bytes sha512(const uint8_t *m, size_t n);
Bytes ripemd160(const uint8_t *m, size_t n);
Bytes keccak256(const uint8_t *m, size_t n);
void sha256Compress(uint32_t st[8], const uint8_t block[64]);
Bytes hmac256(const Bytes &key, const Bytes &msg);
Bytes hmac512(const Bytes &key, const Bytes &msg);
inline Bytes sha256(const Bytes &b) { return sha256(b.data(), b.size()); }
inline Bytes sha256d(const Bytes &b) { return sha256(sha256(b)); }
inline Bytes ripemd160(const Bytes &b) { return ripemd160(b.data(), b.size()); }

std::string base58(const Bytes &b);
std::string base58check(const Bytes &payload);
// Decodes any base-58 string to the bytes it denotes; false if a character is invalid or it is too long (> 150)
bool unbase58(const std::string &s, Bytes &out);

struct Ecdsa { bool ok; Num r, s; };
Ecdsa sign(const Num &key, const Num &hash, const Num &nonce);
bool verify(const Pt &q, const Num &hash, const Num &r, const Num &s);

struct ExtKey { Num key; Bytes chain; unsigned depth; uint32_t index; Bytes fp; };
struct ExtChild { bool blank; ExtKey k; };
Bytes compressed(const Pt &p);
// With the left and right HMAC halves given
ExtChild childFrom(const ExtKey &parent, const Pt &parentPub, uint32_t index, const Bytes &I);
Bytes childMsg(const ExtKey &parent, const Pt &parentPub, uint32_t index);

}
