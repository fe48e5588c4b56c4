#include "ops.hpp"
#include <cstdlib>
#include <cstring>
#include <new>
#include "Base58Check.hpp"
#include "CurvePoint.hpp"
#include "Ecdsa.hpp"
#include "ExtendedPrivateKey.hpp"
#include "FieldInt.hpp"
#include "Keccak256.hpp"
#include "Ripemd160.hpp"
#include "Sha256.hpp"
#include "Sha256Hash.hpp"
#include "Sha512.hpp"
#include "Uint256.hpp"
#include "Utils.hpp"

namespace ops {

size_t kindSize(int k) {
	switch (k) {
		case KU: return sizeof(Uint256);
		case KF: return sizeof(FieldInt);
		case KP: return sizeof(CurvePoint);
		case KH: return sizeof(Sha256Hash);
		case KX: return sizeof(ExtendedPrivateKey);
		case KH256: return sizeof(Sha256);
		case KH512: return sizeof(Sha512);
		case KW8: return 32;
		case KB1: return 1;
		case KB4: return 4;
		case KB20: return 20;
		case KB32: return 32;
		case KB33: return 33;
		case KB64: return 64;
		case KT36: return 36;
		case KT53: return 53;
		case KT112: return 112;
		default: return 0;
	}
}
size_t kindAlign(int k) {
	switch (k) {
		case KU: return alignof(Uint256);
		case KF: return alignof(FieldInt);
		case KP: return alignof(CurvePoint);
		case KH: return alignof(Sha256Hash);
		case KX: return alignof(ExtendedPrivateKey);
		case KH256: return alignof(Sha256);
		case KH512: return alignof(Sha512);
		case KW8: return alignof(uint32_t);
		default: return 1;
	}
}

static const Def DEFS[] = {
	{"Uint256::add", {{KU, INOUT}, {KU, IN}}},
	{"Uint256::subtract", {{KU, INOUT}, {KU, IN}}},
	{"Uint256::add (default)", {{KU, INOUT}, {KU, IN}}},
	{"Uint256::subtract (default)", {{KU, INOUT}, {KU, IN}}},
	{"Uint256::shiftLeft1", {{KU, INOUT}}},
	{"Uint256::shiftRight1", {{KU, INOUT}}},
	{"Uint256::replace", {{KU, INOUT}, {KU, IN}}},
	{"Uint256::swap", {{KU, INOUT}, {KU, INOUT}}},
	{"Uint256::getBigEndianBytes", {{KU, IN}, {KB32, OUT}}},
	{"Uint256(bytes)", {{KU, OUT}, {KB32, IN}}},
	{"Uint256(FieldInt)", {{KU, OUT}, {KF, IN}}},
	{"Uint256(text)", {{KU, OUT}, {KSTR, IN}}},
	{"Uint256 ==", {{KU, IN}, {KU, IN}}},
	{"Uint256 !=", {{KU, IN}, {KU, IN}}},
	{"Uint256 <", {{KU, IN}, {KU, IN}}},
	{"Uint256 <=", {{KU, IN}, {KU, IN}}},
	{"Uint256 >", {{KU, IN}, {KU, IN}}},
	{"Uint256 >=", {{KU, IN}, {KU, IN}}},
	{"Sha256Hash(bytes)", {{KH, OUT}, {KB32, IN}}},
	{"Sha256Hash(text)", {{KH, OUT}, {KSTR, IN}}},
	{"Sha256Hash ==", {{KH, IN}, {KH, IN}}},
	{"Sha256Hash !=", {{KH, IN}, {KH, IN}}},
	{"FieldInt::add", {{KF, INOUT}, {KF, IN}}},
	{"FieldInt::subtract", {{KF, INOUT}, {KF, IN}}},
	{"FieldInt::multiply2", {{KF, INOUT}}},
	{"FieldInt::multiply", {{KF, INOUT}, {KF, IN}}},
	{"FieldInt::square", {{KF, INOUT}}},
	{"FieldInt::multiply (itself)", {{KF, INOUT}}},
	{"FieldInt::replace", {{KF, INOUT}, {KF, IN}}},
	{"FieldInt::getBigEndianBytes", {{KF, IN}, {KB32, OUT}}},
	{"FieldInt(Uint256)", {{KF, OUT}, {KU, IN}}},
	{"FieldInt(text)", {{KF, OUT}, {KSTR, IN}}},
	{"FieldInt ==", {{KF, IN}, {KF, IN}}},
	{"FieldInt !=", {{KF, IN}, {KF, IN}}},
	{"FieldInt <", {{KF, IN}, {KF, IN}}},
	{"FieldInt <=", {{KF, IN}, {KF, IN}}},
	{"FieldInt >", {{KF, IN}, {KF, IN}}},
	{"FieldInt >=", {{KF, IN}, {KF, IN}}},
	{"CurvePoint(x, y)", {{KP, OUT}, {KF, IN}, {KF, IN}}},
	{"CurvePoint(text)", {{KP, OUT}, {KSTR, IN}, {KSTR, IN}}},
	{"CurvePoint::add", {{KP, INOUT}, {KP, IN}}},
	{"CurvePoint::twice", {{KP, INOUT}}},
	{"CurvePoint::replace", {{KP, INOUT}, {KP, IN}}},
	{"CurvePoint::isZero", {{KP, IN}}},
	{"CurvePoint::isOnCurve", {{KP, IN}}},
	{"CurvePoint ==", {{KP, IN}, {KP, IN}}},
	{"CurvePoint !=", {{KP, IN}, {KP, IN}}},
	{"CurvePoint::toCompressedPoint", {{KP, IN}, {KB33, OUT}}},
	{"Sha256::getHash", {{KH, OUT}, {KVAR, IN}}},
	{"Sha256::getDoubleHash", {{KH, OUT}, {KVAR, IN}}},
	{"Sha256::compress", {{KW8, INOUT}, {KB64, IN}}},
	{"Sha256 append and getHash", {{KH, OUT}, {KVAR, IN}, {KVAR, IN}, {KH256, SCRATCH}}},
	{"Sha512::getHash", {{KB64, OUT}, {KVAR, IN}}},
	{"Sha512 append and getHash", {{KB64, OUT}, {KVAR, IN}, {KVAR, IN}, {KH512, SCRATCH}}},
	{"Sha256::getHmac", {{KH, OUT}, {KVAR, IN}, {KVAR, IN}}},
	{"Sha512::getHmac", {{KB64, OUT}, {KVAR, IN}, {KVAR, IN}}},
	{"Ripemd160::getHash", {{KB20, OUT}, {KVAR, IN}}},
	{"Keccak256::getHash", {{KB32, OUT}, {KVAR, IN}}},
	{"pubkeyHashToBase58Check", {{KT36, OUT}, {KB20, IN}}},
	{"privateKeyToBase58Check", {{KT53, OUT}, {KU, IN}}},
	{"extendedPrivateKeyToBase58Check", {{KT112, OUT}, {KX, IN}}},
	{"pubkeyHashFromBase58Check", {{KB20, INOUT}, {KSTR, IN}, {KB1, INOUT}}},
	{"privateKeyFromBase58Check", {{KU, INOUT}, {KSTR, IN}, {KB1, INOUT}, {KB1, INOUT}}},
	{"Utils::parseHexDigit", {}},
	{"Utils::storeBigUint32", {{KB4, OUT}}},
	{"Utils::copyBytes", {{KVAR, INOUT}}},
	{"Uint256::reciprocal", {{KU, INOUT}, {KU, IN}}},
	{"FieldInt::reciprocal", {{KF, INOUT}}},
	{"CurvePoint::normalize", {{KP, INOUT}}},
	{"CurvePoint::multiply", {{KP, INOUT}, {KU, IN}}},
	{"privateExponentToPublicPoint", {{KP, OUT}, {KU, IN}}},
	{"Ecdsa::sign", {{KU, INOUT}, {KU, INOUT}, {KU, IN}, {KH, IN}, {KU, IN}}},
	{"Ecdsa::signWithHmacNonce", {{KU, INOUT}, {KU, INOUT}, {KU, IN}, {KH, IN}}},
	{"Ecdsa::verify", {{KP, IN}, {KH, IN}, {KU, IN}, {KU, IN}}},
	{"extendedPrivateKeyFromBase58Check", {{KX, INOUT}, {KSTR, IN}}},
	{"ExtendedPrivateKey(...)", {{KX, OUT}, {KU, IN}, {KB32, IN}, {KB4, IN}}},
	{"ExtendedPrivateKey::getChildKey", {{KX, OUT}, {KX, IN}}},
};
static_assert(sizeof DEFS / sizeof *DEFS == OP_END, "");
const Def &def(int op) { return DEFS[op]; }

}
using namespace ops;

template <typename H> static void feed(H &h, const uint8_t *msg, size_t n, const uint8_t *pieces, size_t np) {
	size_t at = 0;
	for (size_t i = 0; i + 1 < np; i += 2) {
		size_t k = pieces[i] | static_cast<size_t>(pieces[i + 1]) << 8;
		if (k > n - at) k = n - at;
		h.append(msg + at, k);
		at += k;
	}
	h.append(msg + at, n - at);
}

extern "C" uint64_t ops_run(int op, void *const *slot, const size_t *len, uint64_t arg) {
	#define AT(T, i) (*static_cast<T *>(slot[i]))
	#define CAT(T, i) (*static_cast<const T *>(slot[i]))
	#define BY(i) static_cast<uint8_t *>(slot[i])
	#define CBY(i) static_cast<const uint8_t *>(slot[i])
	#define STR(i) static_cast<const char *>(slot[i])
	uint32_t en = static_cast<uint32_t>(arg & 1);
	switch (op) {
		case U_ADD: return AT(Uint256, 0).add(CAT(Uint256, 1), en);
		case U_SUB: return AT(Uint256, 0).subtract(CAT(Uint256, 1), en);
		case U_ADD1: return AT(Uint256, 0).add(CAT(Uint256, 1));
		case U_SUB1: return AT(Uint256, 0).subtract(CAT(Uint256, 1));
		case U_SHL: return AT(Uint256, 0).shiftLeft1();
		case U_SHR: AT(Uint256, 0).shiftRight1(en); return 0;
		case U_REPLACE: AT(Uint256, 0).replace(CAT(Uint256, 1), en); return 0;
		case U_SWAP: AT(Uint256, 0).swap(AT(Uint256, 1), en); return 0;
		case U_BYTES: CAT(Uint256, 0).getBigEndianBytes(BY(1)); return 0;
		case U_FROMBYTES: new (slot[0]) Uint256(CBY(1)); return 0;
		case U_FROMFIELD: new (slot[0]) Uint256(CAT(FieldInt, 1)); return 0;
		case U_FROMSTR: new (slot[0]) Uint256(STR(1)); return 0;
		case U_EQ: return CAT(Uint256, 0) == CAT(Uint256, 1);
		case U_NE: return CAT(Uint256, 0) != CAT(Uint256, 1);
		case U_LT: return CAT(Uint256, 0) < CAT(Uint256, 1);
		case U_LE: return CAT(Uint256, 0) <= CAT(Uint256, 1);
		case U_GT: return CAT(Uint256, 0) > CAT(Uint256, 1);
		case U_GE: return CAT(Uint256, 0) >= CAT(Uint256, 1);
		case H_FROMBYTES: new (slot[0]) Sha256Hash(CBY(1), 32); return 0;
		case H_FROMSTR: new (slot[0]) Sha256Hash(STR(1)); return 0;
		case H_EQ: return CAT(Sha256Hash, 0) == CAT(Sha256Hash, 1);
		case H_NE: return CAT(Sha256Hash, 0) != CAT(Sha256Hash, 1);
		case F_ADD: AT(FieldInt, 0).add(CAT(FieldInt, 1)); return 0;
		case F_SUB: AT(FieldInt, 0).subtract(CAT(FieldInt, 1)); return 0;
		case F_MUL2: AT(FieldInt, 0).multiply2(); return 0;
		case F_MUL: AT(FieldInt, 0).multiply(CAT(FieldInt, 1)); return 0;
		case F_SQR: AT(FieldInt, 0).square(); return 0;
		case F_MULSELF: AT(FieldInt, 0).multiply(AT(FieldInt, 0)); return 0;
		case F_REPLACE: AT(FieldInt, 0).replace(CAT(FieldInt, 1), en); return 0;
		case F_BYTES: CAT(FieldInt, 0).getBigEndianBytes(BY(1)); return 0;
		case F_FROMUINT: new (slot[0]) FieldInt(CAT(Uint256, 1)); return 0;
		case F_FROMSTR: new (slot[0]) FieldInt(STR(1)); return 0;
		case F_EQ: return CAT(FieldInt, 0) == CAT(FieldInt, 1);
		case F_NE: return CAT(FieldInt, 0) != CAT(FieldInt, 1);
		case F_LT: return CAT(FieldInt, 0) < CAT(FieldInt, 1);
		case F_LE: return CAT(FieldInt, 0) <= CAT(FieldInt, 1);
		case F_GT: return CAT(FieldInt, 0) > CAT(FieldInt, 1);
		case F_GE: return CAT(FieldInt, 0) >= CAT(FieldInt, 1);
		case P_NEW: new (slot[0]) CurvePoint(CAT(FieldInt, 1), CAT(FieldInt, 2)); return 0;
		case P_FROMSTR: new (slot[0]) CurvePoint(STR(1), STR(2)); return 0;
		case P_ADD: AT(CurvePoint, 0).add(CAT(CurvePoint, 1)); return 0;
		case P_TWICE: AT(CurvePoint, 0).twice(); return 0;
		case P_REPLACE: AT(CurvePoint, 0).replace(CAT(CurvePoint, 1), en); return 0;
		case P_ISZERO: return CAT(CurvePoint, 0).isZero();
		case P_ONCURVE: return CAT(CurvePoint, 0).isOnCurve();
		case P_EQ: return CAT(CurvePoint, 0) == CAT(CurvePoint, 1);
		case P_NE: return CAT(CurvePoint, 0) != CAT(CurvePoint, 1);
		case P_COMPRESS: CAT(CurvePoint, 0).toCompressedPoint(BY(1)); return 0;
		case SHA256: new (slot[0]) Sha256Hash(Sha256::getHash(CBY(1), len[1])); return 0;
		case SHA256D: new (slot[0]) Sha256Hash(Sha256::getDoubleHash(CBY(1), len[1])); return 0;
		case SHA256_COMPRESS: Sha256::compress(static_cast<uint32_t *>(slot[0]), CBY(1)); return 0;
		case SHA256_STREAM: {
			Sha256 *h = new (slot[3]) Sha256();
			feed(*h, CBY(1), len[1], CBY(2), len[2]);
			new (slot[0]) Sha256Hash(h->getHash());
			return 0;
		}
		case SHA512: Sha512::getHash(CBY(1), len[1], BY(0)); return 0;
		case SHA512_STREAM: {
			Sha512 *h = new (slot[3]) Sha512();
			feed(*h, CBY(1), len[1], CBY(2), len[2]);
			h->getHash(BY(0));
			return 0;
		}
		case HMAC256: new (slot[0]) Sha256Hash(Sha256::getHmac(CBY(1), len[1], CBY(2), len[2])); return 0;
		case HMAC512: Sha512::getHmac(CBY(1), len[1], CBY(2), len[2], BY(0)); return 0;
		case RIPEMD: Ripemd160::getHash(CBY(1), len[1], BY(0)); return 0;
		case KECCAK: Keccak256::getHash(CBY(1), len[1], BY(0)); return 0;
		case EXPORT_HASH: Base58Check::pubkeyHashToBase58Check(CBY(1), static_cast<uint8_t>(arg), static_cast<char *>(slot[0])); return 0;
		case EXPORT_KEY: Base58Check::privateKeyToBase58Check(CAT(Uint256, 1), static_cast<uint8_t>(arg), (arg >> 8 & 1) != 0, static_cast<char *>(slot[0])); return 0;
		case EXPORT_XKEY: Base58Check::extendedPrivateKeyToBase58Check(CAT(ExtendedPrivateKey, 1), static_cast<char *>(slot[0])); return 0;
		case IMPORT_HASH: return Base58Check::pubkeyHashFromBase58Check(STR(1), BY(0), (arg & 1) != 0 ? nullptr : BY(2));
		case IMPORT_KEY: return Base58Check::privateKeyFromBase58Check(STR(1), AT(Uint256, 0), (arg & 1) != 0 ? nullptr : BY(2), (arg & 2) != 0 ? nullptr : static_cast<bool *>(slot[3]));
		case UTIL_HEX: return static_cast<uint64_t>(static_cast<int64_t>(Utils::parseHexDigit(static_cast<int>(static_cast<int32_t>(arg)))));
		case UTIL_STORE: Utils::storeBigUint32(static_cast<uint32_t>(arg), BY(0)); return 0;
		case UTIL_COPY: {  // Within one array; the argument holds source, destination, count
			size_t from = arg & 0xFFFFF, to = arg >> 20 & 0xFFFFF, n = arg >> 40 & 0xFFFFF;
			Utils::copyBytes(BY(0) + to, CBY(0) + from, n);
			return 0;
		}
		case U_RECIP: AT(Uint256, 0).reciprocal(CAT(Uint256, 1)); return 0;
		case F_RECIP: AT(FieldInt, 0).reciprocal(); return 0;
		case P_NORM: AT(CurvePoint, 0).normalize(); return 0;
		case P_MUL: AT(CurvePoint, 0).multiply(CAT(Uint256, 1)); return 0;
		case P_PUB: new (slot[0]) CurvePoint(CurvePoint::privateExponentToPublicPoint(CAT(Uint256, 1))); return 0;
		case SIGN: return Ecdsa::sign(CAT(Uint256, 2), CAT(Sha256Hash, 3), CAT(Uint256, 4), AT(Uint256, 0), AT(Uint256, 1));
		case SIGN_HMAC: return Ecdsa::signWithHmacNonce(CAT(Uint256, 2), CAT(Sha256Hash, 3), AT(Uint256, 0), AT(Uint256, 1));
		case VERIFY: return Ecdsa::verify(CAT(CurvePoint, 0), CAT(Sha256Hash, 1), CAT(Uint256, 2), CAT(Uint256, 3));
		case IMPORT_XKEY: return Base58Check::extendedPrivateKeyFromBase58Check(STR(1), AT(ExtendedPrivateKey, 0));
		case XKEY_NEW: new (slot[0]) ExtendedPrivateKey(CAT(Uint256, 1), CBY(2), static_cast<uint8_t>(arg), static_cast<uint32_t>(arg >> 8), CBY(3)); return 0;
		case XKEY_CHILD: new (slot[0]) ExtendedPrivateKey(CAT(ExtendedPrivateKey, 1).getChildKey(static_cast<uint32_t>(arg))); return 0;
		default: abort();
	}
}

extern "C" void ops_run_mem(int op, void *const *slot, const size_t *len, uint64_t arg, uint64_t *ret) {
	*ret = ops_run(op, slot, len, arg);
}
