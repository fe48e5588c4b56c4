/*
 * A program that uses the library, for checks of what holds from the start of main. It writes the library's constants,
 * then serves calls in the binary form of props_start.cpp. Compiled like the library it is linked with.
 */
#include "ops.hpp"
#include "Base58Check.hpp"
#include "CurvePoint.hpp"
#include "ExtendedPrivateKey.hpp"
#include "FieldInt.hpp"
#include "Uint256.hpp"
#include <cstdio>
#include <cstring>
#include <unistd.h>

static bool get(void *p, size_t n) {
	for (size_t k = 0; k < n; ) { ssize_t r = read(0, static_cast<char *>(p) + k, n - k); if (r <= 0) return false; k += static_cast<size_t>(r); }
	return true;
}
static void put(const void *p, size_t n) {
	for (size_t k = 0; k < n; ) { ssize_t r = write(1, static_cast<const char *>(p) + k, n - k); if (r <= 0) _exit(1); k += static_cast<size_t>(r); }
}

int main() {
	put(Uint256::ZERO.value, 32);
	put(Uint256::ONE.value, 32);
	put(CurvePoint::FI_ZERO.value, 32);
	put(CurvePoint::FI_ONE.value, 32);
	put(CurvePoint::A.value, 32);
	put(CurvePoint::B.value, 32);
	put(CurvePoint::ORDER.value, 32);
	const CurvePoint *c[] = {&CurvePoint::G, &CurvePoint::ZERO};
	for (int i = 0; i < 2; i++) {
		put(c[i]->x.value, 32);
		put(c[i]->y.value, 32);
		put(c[i]->z.value, 32);
	}
	put(Base58Check::ALPHABET, 59);
	alignas(64) static unsigned char room[5][8192];
	int32_t op;
	while (get(&op, sizeof op)) {
		uint64_t arg;
		int32_t n, alias[5];
		void *slot[5] = {};
		size_t len[5] = {};
		if (!get(&arg, sizeof arg) || !get(&n, sizeof n)) return 1;
		for (int i = 0; i < n; i++) {
			uint32_t k;
			if (!get(&alias[i], sizeof alias[i]) || !get(&k, sizeof k) || k + 64 > sizeof room[i] || !get(room[i], k)) return 1;
			memset(room[i] + k, 0, 64);
			len[i] = k;
			slot[i] = alias[i] < 0 ? room[i] : slot[alias[i]];
		}
		uint64_t ret = ops_run(op, slot, len, arg);
		put(&ret, sizeof ret);
		for (int i = 0; i < n; i++) if (alias[i] < 0) put(room[i], len[i]);
	}
	return 0;
}
