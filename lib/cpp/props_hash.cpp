/* C12 SHA-256, C13 SHA-512, C14 RIPEMD-160, C15 Keccak-256, C16 HMACs, C17 incremental hashing, C24 hash values */
#include "gen.hpp"
#include "guard.hpp"
#include "Keccak256.hpp"
#include "Ripemd160.hpp"
#include "Sha256.hpp"
#include "Sha512.hpp"
#include <functional>
#include <new>
#include <sys/mman.h>
#include <thread>
#include <unistd.h>
using namespace gen;
using guard::Buf;

static std::string brief(const Bytes &b) {
	if (b.size() <= 48) return pbt::hex(b.data(), b.size());
	return pbt::hex(b.data(), 16) + ".." + pbt::hex(&b[b.size() - 8], 8);
}
static void eq(const char *what, const uint8_t *got, const Bytes &exp, const Bytes &msg) {
	REQUIRE(memcmp(got, exp.data(), exp.size()) == 0, "%s of %zu bytes [%s] is %s, expected %s", what, msg.size(), brief(msg).c_str(),
		pbt::hex(got, exp.size()).c_str(), pbt::hex(exp.data(), exp.size()).c_str());
}

// A message in an exact-size buffer; an empty one may be a null pointer
struct Msg {
	Bytes m;
	Buf buf;
	const uint8_t *p;
	Msg(Src &s, const Bytes &b) : m(b), buf(s, b.data(), b.size()), p(buf.p) { if (b.empty() && s.flag()) { p = nullptr; s.label("null pointer"); } }
	void unchanged(const char *what) const { REQUIRE(m.empty() || memcmp(buf.p, m.data(), m.size()) == 0, "%s modified its input", what); }
};

static Bytes message(Src &s, size_t block) {
	size_t n = msgLen(s, block, s.fuzzLimits ? 700 : 6000);
	Bytes b = bytes(s, n);
	s.note("len=%zu [%s]", n, brief(b).c_str());
	size_t pad = block == 128 ? 17 : block == 64 ? 9 : 1, r = n % block;
	if (n == 0) s.label("empty");
	else if (r == 0) s.label("whole blocks");
	else if (r + pad > block) s.label("padding needs an extra block");
	else if (r + pad == block) s.label("padding just fits");
	if (n > 0) s.nontrivial();
	return b;
}

PROPERTY(hash_sha256) {
	Bytes b = message(s, 64);
	Msg m(s, b);
	Bytes e = ref::sha256(b);
	for (size_t i = 0, first = s.below(2); i < 2; i++)
		if (i == first) {
			Sha256Hash h = Sha256::getHash(m.p, b.size());
			eq("SHA-256", h.value, e, b);
		} else {
			Sha256Hash d = Sha256::getDoubleHash(m.p, b.size());
			eq("double SHA-256", d.value, ref::sha256(e), b);
		}
	m.unchanged("hashing");
}
PROPERTY(hash_compress) {
	uint32_t st[8];
	struct State { uint32_t w[8]; } prev;
	for (uint32_t &x : st) x = s.flag() ? word(s) : s.u32();
	if (recall(s, prev)) {
		if (s.chance(1, 3)) prev.w[s.below(8)] ^= UINT32_C(1) << s.below(32);
		memcpy(st, prev.w, 32);
	} else { memcpy(prev.w, st, 32); keep(s, prev); }
	Bytes b = bytes(s, 64);
	if (s.flag()) for (int i = 0; i < 16; i++) { uint32_t w = word(s); for (int j = 0; j < 4; j++) b[4 * i + j] = static_cast<uint8_t>(w >> (8 * j)); }
	s.note("state=%s block=%s", pbt::hex(st, 32).c_str(), pbt::hex(b.data(), 64).c_str());
	s.nontrivial();
	Msg m(s, b);
	Buf sb(s, 32);  // The state is placed against the guard page too; 32 keeps its alignment
	memcpy(sb.p, st, 32);
	Sha256::compress(reinterpret_cast<uint32_t *>(sb.p), m.p);
	ref::sha256Compress(st, b.data());
	REQUIRE(memcmp(st, sb.p, 32) == 0, "compress gave %s, expected %s", pbt::hex(sb.p, 32).c_str(), pbt::hex(st, 32).c_str());
	sb.check("compress");
	m.unchanged("compress");
}
PROPERTY(hash_sha512) {
	Bytes b = message(s, 128);
	Msg m(s, b);
	Buf out(s, 64);
	Sha512::getHash(m.p, b.size(), out.p);
	eq("SHA-512", out.p, ref::sha512(b.data(), b.size()), b);
	out.check("SHA-512");
	m.unchanged("hashing");
}
PROPERTY(hash_ripemd) {
	Bytes b = message(s, 64);
	Msg m(s, b);
	Buf out(s, 20);
	Ripemd160::getHash(m.p, b.size(), out.p);
	eq("RIPEMD-160", out.p, ref::ripemd160(b), b);
	out.check("RIPEMD-160");
	m.unchanged("hashing");
}
PROPERTY(hash_keccak) {
	Bytes b = message(s, 136);
	Msg m(s, b);
	Buf out(s, 32);
	Keccak256::getHash(m.p, b.size(), out.p);
	eq("Keccak-256", out.p, ref::keccak256(b.data(), b.size()), b);
	out.check("Keccak-256");
	m.unchanged("hashing");
}

struct KeyLen { size_t n; };
static size_t keyLenFresh(Src &s, size_t block);
static size_t keyLen(Src &s, size_t block) {
	KeyLen l;
	return recall(s, l) ? l.n : keep(s, KeyLen{keyLenFresh(s, block)}).n;
}
static size_t keyLenFresh(Src &s, size_t block) {
	switch (s.weighted({4, 5, 1})) {
		case 0: return s.below(block + 10);
		case 1: { size_t c[] = {block, block - 1, block + 1, 0, block / 2, 2 * block, 2 * block + 1, 33, 32, block + block / 2}; return c[s.below(10)]; }
		default: return s.chance(1, 4) ? s.below(5000) : s.below(600);
	}
}
static void hmac(Src &s, bool big) {
	size_t block = big ? 128 : 64;
	Bytes k = bytes(s, keyLen(s, block)), b = message(s, block);
	s.note("%s key len=%zu [%s]", big ? "sha512" : "sha256", k.size(), brief(k).c_str());
	s.label(k.size() < block ? "short key" : k.size() == block ? "block-size key" : "long key");
	Msg mk(s, k), m(s, b);
	if (!big) {
		Sha256Hash h = Sha256::getHmac(mk.p, k.size(), m.p, b.size());
		eq("HMAC-SHA-256", h.value, ref::hmac256(k, b), b);
	} else {
		Buf out(s, 64);
		Sha512::getHmac(mk.p, k.size(), m.p, b.size(), out.p);
		eq("HMAC-SHA-512", out.p, ref::hmac512(k, b), b);
		out.check("HMAC-SHA-512");
	}
	mk.unchanged("HMAC");
	m.unchanged("HMAC");
}
PROPERTY(hash_hmac) { hmac(s, s.flag()); }
PROPERTY(hash_hmac256) { hmac(s, false); }
PROPERTY(hash_hmac512) { hmac(s, true); }

// Several hashers fed in turns
template <typename H> struct Live { H *h; Bytes fed; bool done; };
template <typename H> static void streaming(Src &s, size_t block, std::function<Bytes(H &)> finish, std::function<Bytes(const Bytes &)> model) {
	constexpr int K = 3;
	alignas(H) static thread_local unsigned char mem[K][sizeof(H)];
	Live<H> v[K];
	int live = static_cast<int>(s.range(1, 2));
	for (int i = 0; i < K; i++) {
		memset(mem[i], s.u8(), sizeof(H));  // Whatever was in memory before must not matter
		v[i].h = nullptr;
		v[i].done = false;
	}
	for (int i = 0; i < live; i++) v[i].h = new (mem[i]) H();
	size_t steps = s.range(1, s.fuzzLimits ? 8 : 14), pieces = 0;
	for (size_t k = 0; k < steps; k++) {
		int i = live > 1 ? static_cast<int>(s.below(static_cast<uint64_t>(live))) : 0;
		Live<H> &l = v[i];
		if (l.done) continue;
		switch (s.weighted({10, 1, 1})) {
			case 0: {
				size_t used = l.fed.size() % block, n;
				switch (s.weighted({3, 3, 2, 2, 1})) {
					case 0: n = s.below(12); break;
					case 1: { size_t d = s.below(5); n = block - used + d; n = n >= 2 ? n - 2 : 0; break; }  // Up to just around the block's end
					case 2: n = block * s.below(4) + s.below(3); break;
					case 3: n = s.below(3 * block); break;
					default: n = 0;
				}
				if (n > 0 && used + n == block) s.label("piece exactly fills the block");
				else if (used + n > block) s.label("piece straddles blocks");
				else if (n == 0) s.label("empty piece");
				Bytes b = bytes(s, n);
				Msg m(s, b);
				s.note("h%d+%zu", i, n);
				bool chain = s.chance(1, 4);
				H &r = l.h->append(m.p, n);
				REQUIRE(&r == l.h, "append returned another object");
				l.fed.insert(l.fed.end(), b.begin(), b.end());
				if (chain) { r.append(m.p, n).append(m.p, n / 2); l.fed.insert(l.fed.end(), b.begin(), b.end()); l.fed.insert(l.fed.end(), b.begin(), b.begin() + static_cast<long>(n / 2)); }
				m.unchanged("append");
				pieces++;
				if (l.fed.size() > 0 && pieces >= 2) s.nontrivial();
				break;
			}
			case 1: {  // Continue from a copy as well
				if (live == K) break;
				v[live].h = new (mem[live]) H(*l.h);
				v[live].fed = l.fed;
				s.note("h%d=copy of h%d", live, i);
				s.label("copied hasher");
				live++;
				break;
			}
			default: {
				Bytes got = finish(*l.h);
				s.note("finish h%d", i);
				eq("streamed digest", got.data(), model(l.fed), l.fed);
				l.done = true;
				if (live > 1) s.label("finished while another is in use");
			}
		}
	}
	for (int i = 0; i < live; i++) {
		if (v[i].done) continue;
		Bytes got = finish(*v[i].h);
		eq("streamed digest", got.data(), model(v[i].fed), v[i].fed);
	}
}
PROPERTY(hash_stream256) {
	streaming<Sha256>(s, 64, [](Sha256 &h) { Sha256Hash r = h.getHash(); return Bytes(r.value, r.value + 32); }, [](const Bytes &b) { return ref::sha256(b); });
}
PROPERTY(hash_stream512) {
	streaming<Sha512>(s, 128, [](Sha512 &h) { Bytes r(64); h.getHash(r.data()); return r; }, [](const Bytes &b) { return ref::sha512(b.data(), b.size()); });
}

/*---- Messages beyond 2^29 and 2^32 bytes: a 1 MiB pattern mapped over and over ----*/
class Huge {
public:
	static constexpr size_t CH = size_t(1) << 23;
	uint8_t *p;
	size_t n;
	Huge(uint64_t seed, size_t len) : n(len) {
		int fd = memfd_create("huge", 0);
		if (fd < 0 || ftruncate(fd, CH) != 0) { perror("memfd"); abort(); }
		cap = (n + CH - 1) / CH * CH;
		void *m = mmap(nullptr, cap, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (m == MAP_FAILED) { perror("mmap"); abort(); }
		p = static_cast<uint8_t *>(m);
		for (size_t i = 0; i < cap; i += CH)
			if (mmap(p + i, CH, PROT_READ | (i == 0 ? PROT_WRITE : 0), MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { perror("mmap"); abort(); }
		close(fd);
		for (size_t i = 0; i < CH; i++) { seed = seed * UINT64_C(6364136223846793005) + 1442695040888963407u; p[i] = static_cast<uint8_t>(seed >> 56); }
	}
	~Huge() { munmap(p, cap); }
private:
	size_t cap;
};
static void huge(Src &s, size_t base, const char *what, std::function<Bytes(const uint8_t *, size_t)> f, std::function<Bytes(const uint8_t *, size_t)> model) {
	size_t n = base + s.below(300);
	uint64_t seed = s.u64();
	s.note("%s of %zu bytes", what, n);
	s.nontrivial();
	Huge h(seed, n);
	Bytes e;
	std::thread t([&] { e = model(h.p, n); });
	Bytes g;
	try { g = f(h.p, n); } catch (...) { t.join(); throw; }
	t.join();
	REQUIRE(g == e, "%s of %zu bytes is %s, expected %s", what, n, pbt::hex(g.data(), g.size()).c_str(), pbt::hex(e.data(), e.size()).c_str());
}
static Bytes s256(const uint8_t *p, size_t n) { Sha256Hash h = Sha256::getHash(p, n); return Bytes(h.value, h.value + 32); }
static Bytes s512(const uint8_t *p, size_t n) { Bytes r(64); Sha512::getHash(p, n, r.data()); return r; }
static Bytes rmd(const uint8_t *p, size_t n) { Bytes r(20); Ripemd160::getHash(p, n, r.data()); return r; }
static Bytes kec(const uint8_t *p, size_t n) { Bytes r(32); Keccak256::getHash(p, n, r.data()); return r; }
static Bytes m256(const uint8_t *p, size_t n) { return ref::sha256(p, n); }
static const size_t B29 = size_t(1) << 29, B32 = size_t(1) << 32;
PROPERTY_SLOW(huge29_sha256, 300) { huge(s, B29 - 10, "SHA-256", s256, m256); }
PROPERTY_SLOW(huge29_sha512, 300) { huge(s, B29 - 10, "SHA-512", s512, ref::sha512); }
PROPERTY_SLOW(huge29_ripemd, 300) { huge(s, B29 - 10, "RIPEMD-160", rmd, [](const uint8_t *p, size_t n) { return ref::ripemd160(p, n); }); }
PROPERTY_SLOW(huge29_keccak, 300) { huge(s, B29 - 10, "Keccak-256", kec, ref::keccak256); }
PROPERTY_SLOW(huge32_sha256, 900) { huge(s, B32 - 10, "SHA-256", s256, m256); }
PROPERTY_SLOW(huge32_sha512, 900) { huge(s, B32 - 10, "SHA-512", s512, ref::sha512); }
PROPERTY_SLOW(huge32_ripemd, 900) { huge(s, B32 - 10, "RIPEMD-160", rmd, [](const uint8_t *p, size_t n) { return ref::ripemd160(p, n); }); }
PROPERTY_SLOW(huge32_keccak, 900) { huge(s, B32 - 10, "Keccak-256", kec, ref::keccak256); }
PROPERTY_SLOW(huge_stream, 900) {  // Total beyond 2^29 in large uneven pieces
	bool big = s.flag();
	size_t n = B29 - 10 + s.below(300), a = s.below(n), c = a + s.below(n - a);
	s.note("pieces %zu %zu %zu", a, c - a, n - c);
	s.nontrivial();
	Huge h(s.u64(), n);
	Bytes e, g(big ? 64 : 32);
	std::thread t([&] { e = big ? ref::sha512(h.p, n) : ref::sha256(h.p, n); });
	if (big) { Sha512 x; x.append(h.p, a).append(h.p + a, c - a).append(h.p + c, n - c).getHash(g.data()); }
	else { Sha256Hash r = Sha256().append(h.p, a).append(h.p + a, c - a).append(h.p + c, n - c).getHash(); g.assign(r.value, r.value + 32); }
	t.join();
	REQUIRE(g == e, "streamed digest of %zu bytes is wrong", n);
}

/*---- Lengths of all orders of magnitude between the small messages and the huge ones ----*/
static size_t largeLen(Src &s) {
	size_t n = size_t(1) << s.range(12, 22);
	return s.flag() ? n + s.below(n) : n + s.below(300) - 150;
}
static Bytes fill(Src &s, size_t n) {
	uint64_t x = s.u64();
	Bytes b(n);
	for (uint8_t &c : b) { x = x * UINT64_C(6364136223846793005) + 1442695040888963407u; c = static_cast<uint8_t>(x >> 56); }
	return b;
}
static void large(Src &s, const char *what, std::function<Bytes(const uint8_t *, size_t)> f, std::function<Bytes(const uint8_t *, size_t)> model) {
	Bytes m = fill(s, largeLen(s));
	s.note("%s of %zu bytes", what, m.size());
	s.nontrivial();
	Bytes g = f(m.data(), m.size()), e = model(m.data(), m.size());
	REQUIRE(g == e, "%s of %zu bytes is %s, expected %s", what, m.size(), pbt::hex(g.data(), g.size()).c_str(), pbt::hex(e.data(), e.size()).c_str());
}
PROPERTY_SLOW(large_sha256, 60) {
	if (s.chance(1, 4)) large(s, "double SHA-256", [](const uint8_t *p, size_t n) { Sha256Hash h = Sha256::getDoubleHash(p, n); return Bytes(h.value, h.value + 32); }, [](const uint8_t *p, size_t n) { return ref::sha256(ref::sha256(p, n)); });
	else large(s, "SHA-256", s256, m256);
}
PROPERTY_SLOW(large_sha512, 60) { large(s, "SHA-512", s512, ref::sha512); }
PROPERTY_SLOW(large_ripemd, 60) { large(s, "RIPEMD-160", rmd, [](const uint8_t *p, size_t n) { return ref::ripemd160(p, n); }); }
PROPERTY_SLOW(large_keccak, 60) { large(s, "Keccak-256", kec, ref::keccak256); }
PROPERTY_SLOW(large_hmac, 60) {
	bool big = s.flag();
	size_t kind = s.below(3), nk = kind == 1 ? keyLen(s, big ? 128 : 64) : largeLen(s), nm = kind == 0 ? s.below(300) : largeLen(s);
	Bytes k = fill(s, nk), m = fill(s, nm), g(big ? 64 : 32);
	s.note("%s key %zu bytes, message %zu bytes", big ? "sha512" : "sha256", nk, nm);
	s.nontrivial();
	if (big) Sha512::getHmac(k.data(), nk, m.data(), nm, g.data());
	else { Sha256Hash h = Sha256::getHmac(k.data(), nk, m.data(), nm); g.assign(h.value, h.value + 32); }
	Bytes e = big ? ref::hmac512(k, m) : ref::hmac256(k, m);
	REQUIRE(g == e, "HMAC is %s, expected %s", pbt::hex(g.data(), g.size()).c_str(), pbt::hex(e.data(), e.size()).c_str());
}
PROPERTY_SLOW(large_stream, 60) {
	bool big = s.flag();
	Bytes m = fill(s, largeLen(s));
	size_t n = m.size(), at = 0;
	Sha256 a;
	Sha512 b;
	Sha256 a2;
	Sha512 b2;
	bool copied = false;
	s.note("%s of %zu bytes in pieces", big ? "sha512" : "sha256", n);
	s.nontrivial();
	for (size_t i = 0, k = s.range(1, 8); i <= k; i++) {
		size_t piece = i == k ? n - at : std::min(n - at, s.flag() ? largeLen(s) : s.below(300));
		s.note("%zu", piece);
		if (big) b.append(m.data() + at, piece); else a.append(m.data() + at, piece);
		at += piece;
		if (!copied && s.chance(1, 4)) {  // Go on with a copy, and finish the original
			copied = true;
			Bytes g(64), e = big ? ref::sha512(m.data(), at) : m256(m.data(), at);
			if (big) { b2 = b; b.getHash(g.data()); b = b2; }
			else { a2 = a; Sha256Hash h = a.getHash(); g.assign(h.value, h.value + 32); a = a2; }
			REQUIRE(g == e, "streamed digest of the first %zu bytes is wrong", at);
		}
	}
	Bytes g(64), e = big ? ref::sha512(m.data(), n) : m256(m.data(), n);
	if (big) b.getHash(g.data());
	else { Sha256Hash h = a.getHash(); g.assign(h.value, h.value + 32); }
	REQUIRE(g == e, "streamed digest of %zu bytes is wrong", n);
}

PROPERTY(hash_value) {
	Bytes a = bytes(s, 32), b;
	if (s.flag()) { Num x = u256(s); a = ref::toBE(x, 32); }
	switch (s.weighted({3, 4, 2, 1})) {
		case 0: b = a; break;
		case 1: { b = a; size_t i = s.below(32); b[i] = static_cast<uint8_t>(b[i] ^ (1u << s.below(8))); break; }
		case 2: {  // Several differing bytes that could cancel out
			b = a;
			uint8_t d = static_cast<uint8_t>(1 + s.below(255));
			size_t k = s.range(1, 4);
			for (size_t i = 0; i < k; i++) { size_t j = s.below(32); b[j] = static_cast<uint8_t>(s.flag() ? b[j] ^ d : b[j] + d); }
			break;
		}
		default: b = bytes(s, 32);
	}
	s.note("a=%s b=%s", pbt::hex(a.data(), 32).c_str(), pbt::hex(b.data(), 32).c_str());
	s.label(a == b ? "equal" : "unequal");
	s.nontrivial();
	Buf ba(s, a.data(), 32);
	Sha256Hash x(ba.p, 32);
	ba.fill(0xEE);  // The value must not follow the source array
	REQUIRE(memcmp(x.value, a.data(), 32) == 0, "hash built from bytes differs: %s", pbt::hex(x.value, 32).c_str());
	Bytes rb(b.rbegin(), b.rend());
	std::string h = pbt::hex(rb.data(), 32);
	size_t mode = s.below(3);
	for (char &c : h) if (c >= 'a' && (mode == 1 || (mode == 2 && s.flag()))) c = static_cast<char>(c - 32);
	Buf hb(s, h.c_str(), 65);
	Sha256Hash y(static_cast<const char *>(hb.str()));
	REQUIRE(memcmp(hb.p, h.c_str(), 65) == 0, "the hex string was modified");
	REQUIRE(memcmp(y.value, b.data(), 32) == 0, "hash built from hex %s has bytes %s", h.c_str(), pbt::hex(y.value, 32).c_str());
	REQUIRE((x == y) == (a == b) && (y == x) == (a == b), "operator== is wrong");
	REQUIRE((x != y) == (a != b) && (y != x) == (a != b), "operator!= is wrong");
	REQUIRE(x == x && !(x != x), "not equal to itself");
	Sha256Hash c(x);
	c = y;
	REQUIRE(c == y && memcmp(x.value, a.data(), 32) == 0 && memcmp(y.value, b.data(), 32) == 0, "copying is wrong");
}
