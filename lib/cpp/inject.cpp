#include "inject.hpp"
#include <cstddef>
#include <cstring>
#include "CurvePoint.hpp"
#include "Sha256.hpp"
#include "Sha512.hpp"
namespace inject {
thread_local bool active = false, used = false;
thread_local uint8_t out[64], point[64];
thread_local bool pointActive = false, pointUsed = false;
}
extern "C" {
__attribute__((weak)) Sha256Hash __real__ZN6Sha2567getHmacEPKhmS1_m(const uint8_t *, size_t, const uint8_t *, size_t);
__attribute__((weak)) void __real__ZN6Sha5127getHmacEPKhmS1_mPh(const uint8_t *, size_t, const uint8_t *, size_t, uint8_t *);
Sha256Hash __wrap__ZN6Sha2567getHmacEPKhmS1_m(const uint8_t *k, size_t kl, const uint8_t *m, size_t ml) {
	if (inject::active) { inject::used = true; return Sha256Hash(inject::out, 32); }
	return __real__ZN6Sha2567getHmacEPKhmS1_m(k, kl, m, ml);
}
void __wrap__ZN6Sha5127getHmacEPKhmS1_mPh(const uint8_t *k, size_t kl, const uint8_t *m, size_t ml, uint8_t *r) {
	if (inject::active) { inject::used = true; memcpy(r, inject::out, 64); return; }
	__real__ZN6Sha5127getHmacEPKhmS1_mPh(k, kl, m, ml, r);
}
__attribute__((weak)) CurvePoint __real__ZN10CurvePoint28privateExponentToPublicPointERK7Uint256(const Uint256 &);
CurvePoint __wrap__ZN10CurvePoint28privateExponentToPublicPointERK7Uint256(const Uint256 &k) {
	if (inject::pointActive) {
		inject::pointUsed = true;
		return CurvePoint(FieldInt(Uint256(inject::point)), FieldInt(Uint256(inject::point + 32)));
	}
	return __real__ZN10CurvePoint28privateExponentToPublicPointERK7Uint256(k);
}
}
