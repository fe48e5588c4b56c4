/*
 * Every public operation of the C++ library behind one function, so that the same call can be made in several
 * builds, with its operands placed anywhere. ops.cpp includes nothing but the library and compiles in any build.
 */
#pragma once
#include <cstddef>
#include <cstdint>

namespace ops {

enum Op {
	U_ADD, U_SUB, U_ADD1, U_SUB1, U_SHL, U_SHR, U_REPLACE, U_SWAP, U_BYTES, U_FROMBYTES, U_FROMFIELD, U_FROMSTR, U_EQ, U_NE, U_LT, U_LE, U_GT, U_GE,
	H_FROMBYTES, H_FROMSTR, H_EQ, H_NE,
	F_ADD, F_SUB, F_MUL2, F_MUL, F_SQR, F_MULSELF, F_REPLACE, F_BYTES, F_FROMUINT, F_FROMSTR, F_EQ, F_NE, F_LT, F_LE, F_GT, F_GE,
	P_NEW, P_FROMSTR, P_ADD, P_TWICE, P_REPLACE, P_ISZERO, P_ONCURVE, P_EQ, P_NE, P_COMPRESS,
	SHA256, SHA256D, SHA256_COMPRESS, SHA256_STREAM, SHA512, SHA512_STREAM, HMAC256, HMAC512, RIPEMD, KECCAK,
	EXPORT_HASH, EXPORT_KEY, EXPORT_XKEY, IMPORT_HASH, IMPORT_KEY,
	UTIL_HEX, UTIL_STORE, UTIL_COPY,
	FAST_END,
	U_RECIP = FAST_END, F_RECIP, P_NORM, MID_END,
	P_MUL = MID_END, P_PUB, SIGN, SIGN_HMAC, VERIFY, IMPORT_XKEY, XKEY_NEW, XKEY_CHILD,
	OP_END
};

enum Kind { NONE, KU, KF, KP, KH, KX, KH256, KH512, KW8, KB1, KB4, KB20, KB32, KB33, KB64, KT36, KT53, KT112, KSTR, KVAR };
// Sizes of the fixed kinds (0: variable) and the alignment their types require
size_t kindSize(int kind);
size_t kindAlign(int kind);
enum Mode { IN, OUT, INOUT, SCRATCH };
struct Slot { int kind; int mode; };
struct Def { const char *name; Slot slot[5]; };
const Def &def(int op);

}

// The operands are at slot[0..4], each of the length given; returns the function's result, or 0
extern "C" uint64_t ops_run(int op, void *const *slot, const size_t *len, uint64_t arg);
