/* C37: the byte and digit helpers */
#include "gen.hpp"
#include "Utils.hpp"
#include <algorithm>
#include <climits>
using namespace gen;

static int digit(long long c) {  // Written against the table, not by ranges
	if (c < 0 || c > 255) return -1;
	static const char LOW[] = "0123456789abcdef", HIGH[] = "0123456789ABCDEF";
	for (int i = 0; i < 16; i++) if (c == LOW[i] || c == HIGH[i]) return i;
	return -1;
}

PROPERTY(utils) {
	switch (s.weighted({3, 5, 2})) {
		case 0: {
			int c;
			switch (s.below(4)) {
				case 0: c = static_cast<int>(s.below(256)); break;
				case 1: c = static_cast<int>(s.below(512)) - 384; break;
				case 2: c = "09afAF"[s.below(6)] + static_cast<int>(s.below(3)) - 1; if (s.flag()) c = static_cast<int>(static_cast<unsigned>(c) | 1u << s.range(7, 31)); break;
				default: c = s.flag() ? INT_MAX - static_cast<int>(s.below(3)) : s.flag() ? INT_MIN + static_cast<int>(s.below(60)) : static_cast<int>(s.u32());
			}
			s.note("parseHexDigit(%d)", c);
			s.label("parseHexDigit");
			int got = Utils::parseHexDigit(c);
			REQUIRE(got == digit(c), "the digit's value is %d, expected %d", got, digit(c));
			if (got >= 0) s.nontrivial();
			REQUIRE(!strcmp(Utils::HEX_DIGITS, "0123456789abcdef"), "HEX_DIGITS is %s", Utils::HEX_DIGITS);
			if (got >= 0) REQUIRE(digit(Utils::HEX_DIGITS[got]) == got, "HEX_DIGITS is wrong");
			break;
		}
		case 1: {
			size_t n = s.weighted({1, 4, 2, 1});
			n = n == 0 ? 0 : n == 1 ? s.range(1, 40) : n == 2 ? s.range(1, 300) : s.range(1, 6000);
			if (n == 0 && s.flag()) {
				s.label("copyBytes of nothing from or to null");
				uint8_t b = 7;
				bool d = s.flag(), e = s.flag() || !d;
				s.note("copyBytes(%s, %s, 0)", d ? "null" : "byte", e ? "null" : "byte");
				Utils::copyBytes(d ? nullptr : &b, e ? nullptr : &b, 0);
				REQUIRE(b == 7, "copying nothing changed a byte");
				break;
			}
			size_t room = n + s.below(40) + (s.flag() ? n : 0), from = s.below(room - n + 1), to = s.below(room - n + 1);
			if (s.chance(1, 3) && from + 1 <= room - n) to = from + 1;
			Bytes b = bytes(s, room), e = b, src(b.begin() + static_cast<long>(from), b.begin() + static_cast<long>(from + n));
			s.note("copyBytes of %zu bytes from %zu to %zu of %zu", n, from, to, room);
			bool over = from < to + n && to < from + n && from != to;
			s.label(over ? from < to ? "copyBytes up, overlapping" : "copyBytes down, overlapping" : "copyBytes");
			if (over) s.nontrivial();
			std::copy(src.begin(), src.end(), e.begin() + static_cast<long>(to));
			if (s.chance(1, 4)) {  // The source may be constant: two separate guarded blocks
				Bytes out(n, 0xA5);
				Utils::copyBytes(out.data(), src.data(), n);
				REQUIRE(out == src, "a copy differs");
			}
			Utils::copyBytes(b.data() + to, b.data() + from, n);
			REQUIRE(b == e, "the bytes after the copy are %s, expected %s", pbt::hex(b.data(), std::min<size_t>(room, 60)).c_str(), pbt::hex(e.data(), std::min<size_t>(room, 60)).c_str());
			break;
		}
		default: {
			uint32_t x = word(s);
			Bytes b = bytes(s, 12), e = b;
			size_t at = s.below(9);
			s.note("storeBigUint32(%08x) at %zu", x, at);
			s.label("storeBigUint32");
			s.nontrivial();
			for (size_t i = 0; i < 4; i++) e[at + i] = static_cast<uint8_t>(x / (1u << (24 - 8 * i)) % 256);
			Utils::storeBigUint32(x, b.data() + at);
			REQUIRE(b == e, "the bytes are %s, expected %s", pbt::hex(b.data(), 12).c_str(), pbt::hex(e.data(), 12).c_str());
		}
	}
}
