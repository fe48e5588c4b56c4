/*
 * A small property-based testing engine.
 *
 * A case is a pure function of a sequence of bounded choices. Random generation draws
 * the choices from a PRNG seeded by (seed, property name, case index); replay and
 * shrinking feed a recorded sequence back. Every generator is written on top of
 * Src::below(), with 0 as the simplest choice, so one generic shrinker serves all.
 * Workers are forked, so that a crash, an abort or an endless loop in the code under
 * test is just another way for a case to fail.
 */
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <typeindex>
#include <vector>

namespace pbt {

struct Fail { std::string msg; };

[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

#define REQUIRE(cond, ...) do { if (!(cond)) ::pbt::fail(__VA_ARGS__); } while (0)

constexpr int MAX_LABELS = 96;
constexpr size_t MAX_CHOICES = 1 << 16;
constexpr size_t NOTE_CAP = 6000;

struct Shared;

class Src {
public:
	enum Mode { RANDOM, REPLAY, BYTES };
	Mode mode = RANDOM;
	std::vector<uint64_t> in;     // Replayed choices
	size_t pos = 0;
	const uint8_t *bytes = nullptr;
	size_t nbytes = 0, bpos = 0;
	uint64_t s[4];
	uint64_t *rec = nullptr;      // Recorded choices (in shared memory)
	volatile uint32_t *recLen = nullptr;
	bool verbose = false;
	bool nontriv = false;
	std::string noteText;
	char *noteOut = nullptr;      // Where replays publish their text, so that it survives a crash
	uint64_t hash = 0;
	bool seq = false;             // Part of a sequence of related cases (see gen::recall)
	std::map<std::type_index, std::shared_ptr<void>> memory;  // What earlier cases of the sequence generated
	bool fuzzLimits = false;      // Smaller sizes when coverage-guided

	void seed(uint64_t a, uint64_t b, uint64_t c);
	uint64_t next();
	// Uniform choice in [0, n); n >= 1. Shrinks towards 0.
	uint64_t below(uint64_t n);
	uint64_t u64();
	uint32_t u32() { return static_cast<uint32_t>(below(UINT64_C(1) << 32)); }
	uint8_t u8() { return static_cast<uint8_t>(below(256)); }
	bool flag() { return below(2) != 0; }
	bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }  // Shrinks to false
	size_t range(size_t lo, size_t hi) { return lo + below(hi - lo + 1); }       // Inclusive
	// Picks an index with the given integer weights. Shrinks to 0.
	size_t weighted(std::initializer_list<unsigned> w);

	void nontrivial() { nontriv = true; }
	void label(const char *name);
	void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
};

typedef void (*PropFn)(Src &);
struct Prop { const char *name; PropFn fn; unsigned cpuLimit; };
// Registered by static objects
struct Register { Register(const char *name, PropFn fn, unsigned cpuLimit = 20); };
#define PROPERTY(NAME) static void prop_##NAME(::pbt::Src &s); static ::pbt::Register reg_##NAME(#NAME, prop_##NAME); static void prop_##NAME(::pbt::Src &s)
#define PROPERTY_SLOW(NAME, CPU) static void prop_##NAME(::pbt::Src &s); static ::pbt::Register reg_##NAME(#NAME, prop_##NAME, CPU); static void prop_##NAME(::pbt::Src &s)

const std::vector<Prop> &props();
int run(int argc, char **argv);

// Dictionary of numeric literals found in the sources under test
extern std::vector<uint64_t> dict;

std::string hex(const void *p, size_t n);

}  // namespace pbt
