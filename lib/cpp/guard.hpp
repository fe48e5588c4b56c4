/*
 * Exact-size buffers: placed against an inaccessible page (after the end, or before the start), with
 * canary bytes on the other side, so that any build detects an access outside the buffer.
 */
#pragma once
#include "engine.hpp"

namespace guard {

class Buf {
public:
	uint8_t *p;
	size_t n;
	// The placement is a choice of the case; with an alignment given, it need not be at either page
	Buf(pbt::Src &s, size_t n, size_t align = 0);
	Buf(pbt::Src &s, const void *data, size_t n, size_t align = 0) : Buf(s, n, align) { if (n) memcpy(p, data, n); }
	~Buf();
	Buf(const Buf &) = delete;
	Buf &operator=(const Buf &) = delete;
	bool intact() const;
	void check(const char *what) const { REQUIRE(intact(), "%s: wrote outside its %zu-byte buffer", what, n); }
	char *str() { return reinterpret_cast<char *>(p); }
	void fill(uint8_t v) { if (n) memset(p, v, n); }
private:
	int slot;
	void poison(bool on);
	uint8_t *lo, *hi;  // Canary bytes are [lo, p) and [p + n, hi)
};

}
