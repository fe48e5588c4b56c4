/* C25: two runs that differ only in secrets leave the same trace */
#include "gen.hpp"
#include "ct.hpp"
#include "Ecdsa.hpp"
using namespace gen;
using ref::P;
using ref::N;

namespace {

// Operands always lie at the same addresses
alignas(64) unsigned char mem[4096];
template <typename T> T &at(int k) { return *reinterpret_cast<T *>(mem + 256 * k); }
#define U0 at<Uint256>(0)
#define U1 at<Uint256>(1)
#define U2 at<Uint256>(2)
#define U3 at<Uint256>(3)
#define U4 at<Uint256>(4)
#define F0 at<FieldInt>(0)
#define F1 at<FieldInt>(1)
#define P0 at<CurvePoint>(0)
#define P1 at<CurvePoint>(1)
#define H0 at<Sha256Hash>(0)
#define H1 at<Sha256Hash>(1)
#define EN at<uint32_t>(8)
#define RES at<uint32_t>(9)
#define B0 at<unsigned char>(10)

enum Op {
	U_ADD, U_SUB, U_ADD1, U_SUB1, U_SHL, U_SHR, U_REPLACE, U_SWAP, U_BYTES, U_FROMBYTES, U_FROMFIELD, U_EQ, U_NE, U_LT, U_LE, U_GT, U_GE,
	H_FROMBYTES, H_EQ, H_NE,
	F_ADD, F_SUB, F_MUL2, F_REPLACE, F_BYTES, F_EQ, F_NE, F_LT, F_LE, F_GT, F_GE, F_FROMUINT,
	P_NEW, P_REPLACE, P_ISZERO, P_EQ, P_NE, P_COMPRESS,
	SMALL_END,
	F_MUL = SMALL_END, F_SQR, F_SQRSELF, MUL_END,
	P_ADD = MUL_END, P_TWICE, P_ONCURVE, POINT_END,
	U_RECIP = POINT_END, F_RECIP, P_NORM, P_MUL, P_PUB, SIGN, SIGNHMAC, BIG_END
};
const char *const NAMES[] = {
	"Uint256::add", "Uint256::subtract", "Uint256::add (default)", "Uint256::subtract (default)", "Uint256::shiftLeft1", "Uint256::shiftRight1", "Uint256::replace", "Uint256::swap",
	"Uint256::getBigEndianBytes", "Uint256(bytes)", "Uint256(FieldInt)", "Uint256 ==", "Uint256 !=", "Uint256 <", "Uint256 <=", "Uint256 >", "Uint256 >=",
	"Sha256Hash(bytes)", "Sha256Hash ==", "Sha256Hash !=",
	"FieldInt::add", "FieldInt::subtract", "FieldInt::multiply2", "FieldInt::replace", "FieldInt::getBigEndianBytes", "FieldInt ==", "FieldInt !=", "FieldInt <", "FieldInt <=", "FieldInt >", "FieldInt >=", "FieldInt(Uint256)",
	"CurvePoint(x, y)", "CurvePoint::replace", "CurvePoint::isZero", "CurvePoint ==", "CurvePoint !=", "CurvePoint::toCompressedPoint",
	"FieldInt::multiply", "FieldInt::square", "FieldInt::multiply (itself)",
	"CurvePoint::add", "CurvePoint::twice", "CurvePoint::isOnCurve",
	"Uint256::reciprocal", "FieldInt::reciprocal", "CurvePoint::normalize", "CurvePoint::multiply", "CurvePoint::privateExponentToPublicPoint", "Ecdsa::sign", "Ecdsa::signWithHmacNonce",
};
static_assert(sizeof NAMES / sizeof *NAMES == BIG_END, "");

__attribute__((noinline)) void runOp(int op) {
	switch (op) {
		case U_ADD: RES = U0.add(U1, EN); break;
		case U_SUB: RES = U0.subtract(U1, EN); break;
		case U_ADD1: RES = U0.add(U1); break;
		case U_SUB1: RES = U0.subtract(U1); break;
		case U_SHL: RES = U0.shiftLeft1(); break;
		case U_SHR: U0.shiftRight1(EN); break;
		case U_REPLACE: U0.replace(U1, EN); break;
		case U_SWAP: U0.swap(U1, EN); break;
		case U_BYTES: U0.getBigEndianBytes(&B0); break;
		case U_FROMBYTES: new (&U2) Uint256(static_cast<const uint8_t *>(H0.value)); break;
		case U_FROMFIELD: new (&U2) Uint256(F0); break;
		case U_EQ: RES = U0 == U1; break;
		case U_NE: RES = U0 != U1; break;
		case U_LT: RES = U0 < U1; break;
		case U_LE: RES = U0 <= U1; break;
		case U_GT: RES = U0 > U1; break;
		case U_GE: RES = U0 >= U1; break;
		case H_FROMBYTES: new (&at<Sha256Hash>(2)) Sha256Hash(H0.value, 32); break;
		case H_EQ: RES = H0 == H1; break;
		case H_NE: RES = H0 != H1; break;
		case F_ADD: F0.add(F1); break;
		case F_SUB: F0.subtract(F1); break;
		case F_MUL2: F0.multiply2(); break;
		case F_REPLACE: F0.replace(F1, EN); break;
		case F_BYTES: F0.getBigEndianBytes(&B0); break;
		case F_EQ: RES = F0 == F1; break;
		case F_NE: RES = F0 != F1; break;
		case F_LT: RES = F0 < F1; break;
		case F_LE: RES = F0 <= F1; break;
		case F_GT: RES = F0 > F1; break;
		case F_GE: RES = F0 >= F1; break;
		case F_FROMUINT: new (&at<FieldInt>(2)) FieldInt(U0); break;
		case P_NEW: new (&at<CurvePoint>(2)) CurvePoint(F0, F1); break;
		case P_REPLACE: P0.replace(P1, EN); break;
		case P_ISZERO: RES = P0.isZero(); break;
		case P_EQ: RES = P0 == P1; break;
		case P_NE: RES = P0 != P1; break;
		case P_COMPRESS: P0.toCompressedPoint(&B0); break;
		case F_MUL: F0.multiply(F1); break;
		case F_SQR: F0.square(); break;
		case F_SQRSELF: F0.multiply(F0); break;
		case P_ADD: P0.add(P1); break;
		case P_TWICE: P0.twice(); break;
		case P_ONCURVE: RES = P0.isOnCurve(); break;
		case U_RECIP: U0.reciprocal(U1); break;
		case F_RECIP: F0.reciprocal(); break;
		case P_NORM: P0.normalize(); break;
		case P_MUL: P0.multiply(U1); break;
		case P_PUB: new (&at<CurvePoint>(2)) CurvePoint(CurvePoint::privateExponentToPublicPoint(U0)); break;
		case SIGN: RES = Ecdsa::sign(U0, H1, U2, U3, U4); break;
		case SIGNHMAC: RES = Ecdsa::signWithHmacNonce(U0, H1, U3, U4); break;
		default: abort();
	}
}

struct Vals { unsigned char m[2560]; bool ok; std::string text; };

void putU(Vals &v, int k, const Num &x) { Uint256 u = U(x); memcpy(v.m + 256 * k, &u, sizeof u); v.text += " " + str(x); }
void putH(Vals &v, int k, const Num &x) { Bytes b = ref::toBE(x, 32); memcpy(v.m + 256 * k, b.data(), 32); v.text += " " + str(x); }
void putP(Vals &v, int k, const CurvePoint &c) { memcpy(v.m + 256 * k, &c, sizeof c); v.text += " " + str(c); }
void putEn(Vals &v, bool e) { uint32_t x = e; memcpy(v.m + 256 * 8, &x, 4); v.text += e ? " enable=1" : " enable=0"; }

// Values for the secrets of one run; 'pub' is the public modulus where there is one
Vals secrets(Src &s, int op, const Num &pub) {
	Vals v;
	memset(v.m, 0, sizeof v.m);
	v.ok = true;
	if (op <= U_GE || (op >= H_FROMBYTES && op <= H_NE)) {
		Num a = u256(s), b = related(s, a);
		if (op == U_FROMFIELD) a %= P();
		if (op <= U_GE && op != U_FROMBYTES) { putU(v, 0, a); putU(v, 1, b); }
		else { putH(v, 0, a); putH(v, 1, b); }
		putEn(v, s.flag());
	} else if (op <= F_GE || (op >= F_MUL && op <= F_SQRSELF) || op == P_NEW || op == F_RECIP) {
		Num a = field(s), b = s.chance(1, 3) ? related(s, a) % P() : s.chance(1, 4) ? Num((P() - a) % P()) : field(s);
		if (op >= F_MUL && op <= F_SQRSELF && s.flag()) boundaryPair(s, a, b);
		if ((op == F_SQR || op == F_SQRSELF) && s.flag()) a = ref::powm(Num(s.u64()) >> static_cast<unsigned>(s.below(64)), (P() + 1) / 4, P());
		putU(v, 0, a);
		putU(v, 1, b);
		putEn(v, s.flag());
	} else if (op == F_FROMUINT) putU(v, 0, u256(s));
	else if (op >= P_REPLACE && op <= P_COMPRESS || op == P_ADD || op == P_TWICE || op == P_ONCURVE || op == P_NORM || op == P_MUL) {
		bool norm = op == P_COMPRESS || op == P_ONCURVE;
		Pt a = point(s, true), b = s.chance(1, 3) ? a : s.chance(1, 3) ? ref::neg(a) : point(s, true);
		if (op == P_COMPRESS && a.inf) a = ref::base();
		CurvePoint ca = proj(a, norm ? Num(1) : scale(s)), cb = proj(b, norm ? Num(1) : scale(s));
		if (op == P_ONCURVE && s.flag()) put(s.flag() ? ca.x.value : ca.y.value, field(s));
		if ((op == P_EQ || op == P_NE) && s.flag()) {  // Equal in some coordinates
			cb = ca;
			if (s.flag()) { uint32_t *w = s.below(3) == 0 ? cb.x.value : s.flag() ? cb.y.value : cb.z.value; put(w, related(s, get(w)) % P()); }
		}
		putP(v, 0, ca);
		if (op == P_MUL) putU(v, 1, anyScalar(s));
		else putP(v, 1, cb);
		putEn(v, s.flag());
	} else if (op == U_RECIP) {
		Num x = below(s, pub);
		if (s.chance(1, 4)) x = (Num(1) << static_cast<unsigned>(s.below(256))) % pub;
		for (int i = 0; x != 0 && ref::gcd(x, pub) != 1; i++) x = i > 60 ? Num(1) : Num((x + 1) % pub);
		putU(v, 0, x);
		putU(v, 1, pub);
	} else if (op == P_PUB) putU(v, 0, s.flag() ? scalar(s) : Num(1 + anyScalar(s) % (N() - 1)));
	else {
		Num d, z, k;
		signInputs(s, d, z, k);
		if (op == SIGNHMAC) { Bytes h = ref::hmac256(ref::toBE(d, 32), ref::toBE(z, 32)); k = ref::fromBE(h.data(), 32); }
		putU(v, 0, d);
		putH(v, 1, z);
		if (op == SIGN) putU(v, 2, k);
		v.ok = ref::sign(d, z, k).ok;
	}
	return v;
}

__attribute__((noinline)) void traced(int op, const Vals &v, ct::Trace &t, bool log) {
	memcpy(mem, v.m, sizeof v.m);
	ct::begin(log);
	runOp(op);
	ct::end(t);
}

void pair(Src &s, int op, int others) {
	ct::init();
	Num pub = 0;
	if (op == U_RECIP) { pub = s.flag() ? N() : Num(u256(s) | 1); if (pub < 3) pub = 3; }
	Vals a = secrets(s, op, pub);
	s.note("%s:%s", NAMES[op], a.text.c_str());
	if (!a.ok) { s.label("signing fails"); return; }
	static bool warm[BIG_END];
	if (!warm[op]) { memcpy(mem, a.m, sizeof a.m); runOp(op); warm[op] = true; }
	ct::Trace ta, tb;
	traced(op, a, ta, false);
	REQUIRE(ta.count > 0, "the trace of %s is empty", NAMES[op]);
	for (int i = 0; i < others; i++) {
		Vals b = secrets(s, op, pub);
		if (!b.ok) { s.label("signing fails"); continue; }
		s.note("versus%s", b.text.c_str());
		if (memcmp(a.m, b.m, sizeof a.m) != 0) s.nontrivial();
		traced(op, b, tb, false);
		s.label(NAMES[op]);
		if (ta.hash == tb.hash && ta.count == tb.count) continue;
		if (ct::counting) {
			traced(op, a, ta, true);
			traced(op, b, tb, true);
			pbt::fail("%s: the number of operations reported depends on the operands' values: %ld and %ld", NAMES[op], static_cast<long>(ta.log[0]), static_cast<long>(tb.log[0]));
		}
		// Find the first difference
		traced(op, a, ta, true);
		traced(op, b, tb, true);
		size_t k = 0, n = std::min(ta.log.size(), tb.log.size());
		while (k < n && ta.log[k] == tb.log[k]) k++;
		std::string wa = k < ta.log.size() ? ct::where(ta.log[k]) : "the end", wb = k < tb.log.size() ? ct::where(tb.log[k]) : "the end", wc = "?";
		for (size_t j = k; j-- > 0;) if ((ta.log[j] >> 60) == 0) { wc = ct::where(ta.log[j]); break; }
		pbt::fail("%s: executions that differ only in secrets take different paths: after %zu equal events (the last code at %s) one goes on with %s and the other with %s",
			NAMES[op], k, wc.c_str(), wa.c_str(), wb.c_str());
	}
}

}

PROPERTY(ct_small) { pair(s, static_cast<int>(s.below(SMALL_END)), 3); }
PROPERTY(ct_multiply) { pair(s, static_cast<int>(s.range(F_MUL, MUL_END - 1)), 2); }
PROPERTY(ct_point) { pair(s, static_cast<int>(s.range(P_ADD, POINT_END - 1)), 1); }
PROPERTY_SLOW(ct_big, 60) { pair(s, static_cast<int>(s.range(U_RECIP, BIG_END - 1)), 1); }
