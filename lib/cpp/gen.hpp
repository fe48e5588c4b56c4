/* Generators shared by the property files, and conversions between the models and the library's types. */
#pragma once
#include "engine.hpp"
#include "ref.hpp"
#include "CurvePoint.hpp"
#include "FieldInt.hpp"
#include "Sha256Hash.hpp"
#include "Uint256.hpp"
#include <utility>
#include <vector>

namespace gen {

using pbt::Src;
using ref::Num;
using ref::Bytes;
using ref::Pt;

// Any 256-bit value, with emphasis on boundaries
Num u256(Src &s);
// A value related to a (or not)
Num related(Src &s, const Num &a);
// Value in [0, m), with emphasis on both ends
Num below(Src &s, const Num &m);
Num field(Src &s);                 // [0, p)
Num scalar(Src &s);                // [1, n-1]
uint32_t word(Src &s);
uint64_t qword(Src &s);
// Bytes of the given length with assorted content
Bytes bytes(Src &s, size_t n);
// Length emphasising block boundaries
size_t msgLen(Src &s, size_t block, size_t cap);
// Point on the curve (cheap: from a precomputed pool, or lifted from a generated x), sometimes zero if allowed
Pt point(Src &s, bool allowZero);
Num uniform(Src &s);

// What was generated earlier in a sequence of cases
template<class T> std::vector<T> &seen(Src &s) {
	std::shared_ptr<void> &p = s.memory[std::type_index(typeid(T))];
	if (!p) p = std::make_shared<std::vector<T>>();
	return *static_cast<std::vector<T> *>(p.get());
}
template<class T> bool recall(Src &s, T &out, unsigned num = 2, unsigned den = 5) {
	if (!s.seq) return false;
	std::vector<T> &v = seen<T>(s);
	if (v.empty() || !s.chance(num, den)) return false;
	out = v[s.below(v.size())];
	return true;
}
template<class T> T keep(Src &s, const T &x) {
	if (s.seq && seen<T>(s).size() < 64) seen<T>(s).push_back(x);
	return x;
}
// An earlier number, or one that shares part of it
bool recallNum(Src &s, Num &out);
void vary(Src &s, Num &x);  // Into the same number, usually, or one that shares part of it
// An earlier text, or one with a character changed
bool recallText(Src &s, std::string &out);

inline void put(uint32_t v[8], const Num &x) {
	Num t = x;
	for (int i = 0; i < 8; i++) { v[i] = static_cast<uint32_t>(t & 0xFFFFFFFFu); t >>= 32; }
}
inline Num get(const uint32_t v[8]) {
	Num r = 0;
	for (int i = 7; i >= 0; i--) r = (r << 32) | v[i];
	return r;
}
inline Uint256 U(const Num &x) { Uint256 r; put(r.value, x); return r; }
inline Num num(const Uint256 &x) { return get(x.value); }
inline Num num(const FieldInt &x) { return get(x.value); }
inline FieldInt F(const Num &x) { FieldInt r(U(0)); put(r.value, x); return r; }
inline Sha256Hash H(const Num &x) { Bytes b = ref::toBE(x, 32); return Sha256Hash(b.data(), 32); }

// Projective representation of a point with the given scaling (zero: (0, scale, 0))
inline CurvePoint proj(const Pt &p, const Num &scale) {
	CurvePoint r(F(0), F(0));
	const Num &q = ref::P();
	if (p.inf) { put(r.x.value, 0); put(r.y.value, scale); put(r.z.value, 0); }
	else { put(r.x.value, ref::mulm(p.x, scale, q)); put(r.y.value, ref::mulm(p.y, scale, q)); put(r.z.value, scale); }
	return r;
}
Num anyScalar(Src &s);             // Any 256-bit scalar, with patterns that windowed methods may get wrong
void boundaryPair(Src &s, Num &x, Num &y);  // Field elements whose product is at a boundary of the reduction
Num anyHash(Src &s);
// Private key, hash and nonce with r*key + hash or s at chosen places
void signInputs(Src &s, Num &d, Num &z, Num &k);
Num scale(Src &s);  // Non-zero field element, often 1
Num sparse(Src &s);  // Non-zero number with a single bit or word set, or near zero or p
// Some intermediate value of a formula is c * scale^degree. Returns a scale that makes one of them a chosen number.
typedef std::vector<std::pair<Num, unsigned>> Terms;
Num solveScale(Src &s, const Terms &terms);
// Scales (product of both for the sum) for which an intermediate value of the addition or doubling is structured
Num scaleForAdd(Src &s, const Pt &a, const Pt &b, const Num &sa);
Num scaleForTwice(Src &s, const Pt &a);
// Checks that the triple is a valid representation of a point and returns it; fails otherwise
Pt toPt(const CurvePoint &c, const char *what);
Pt toPtOn(const CurvePoint &c, const Num &b, const char *what);  // On y^2 = x^3 + b
std::string str(const CurvePoint &c);
std::string str(const Pt &p);
inline std::string str(const Num &x) { return ref::hexNum(x); }

}
