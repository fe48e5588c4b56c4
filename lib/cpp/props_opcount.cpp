/*
 * C39: what the operation counting program prints.
 * 
 * The library is compiled so that what it counts reaches pbt_countOps() here, and every entry of a function
 * __cyg_profile_func_enter(). A case multiplies, shifts and adds to the counts that the program then receives, so that
 * numbers of any length appear in it and operations that happen to cost the same can be told apart.
 */
#include "gen.hpp"
#include "Ecdsa.hpp"
#include "Sha256.hpp"
#include <iostream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#define QUIET __attribute__((no_instrument_function))

void countOps(long n);  // The program's
extern "C" int opcount_main();
extern "C" char __executable_start;

namespace {
enum { OFF, MEASURE, FORWARD };
int mode = OFF;
long factor, offset, weightMax;
uint64_t weightSeed;
long long measured;
long calls;

QUIET void give(long n) {
	calls++;
	if (mode == MEASURE)
		measured += n;
	else if (mode == FORWARD)
		countOps(n);
}
}

QUIET void pbt_countOps(long n) {
	if (mode != OFF)
		give(n * factor + offset);
}

extern "C" QUIET void __cyg_profile_func_enter(void *fn, void *) {
	if (mode == OFF || weightMax == 0)
		return;
	uint64_t x = weightSeed ^ static_cast<uint64_t>(static_cast<char *>(fn) - &__executable_start) * UINT64_C(0x9E3779B97F4A7C15);
	x = (x ^ (x >> 30)) * UINT64_C(0xBF58476D1CE4E5B9);
	x = (x ^ (x >> 27)) * UINT64_C(0x94D049BB133111EB);
	give(static_cast<long>((x ^ (x >> 31)) % static_cast<uint64_t>(weightMax)));
}
extern "C" QUIET void __cyg_profile_func_exit(void *, void *) {}

namespace {

volatile uint32_t sinkhole;

// One call of each operation, on the values that the program says it uses
struct Operands {
	Uint256 u, v, r, s;
	FieldInt f, g;
	CurvePoint p, q;
	Sha256Hash h;
	Operands() : f(Uint256::ONE), g(Uint256::ONE), p(CurvePoint::G), q(CurvePoint::G), h(Sha256::getHash(nullptr, 0)) { u = v = r = s = Uint256::ONE; }
};

long long cost(int k) {
	Operands o;
	if (k == 8)
		o.v = CurvePoint::ORDER;
	measured = 0;
	mode = MEASURE;
	switch (k) {
		case 0: o.u.replace(o.v, 1); break;
		case 1: o.u.swap(o.v, 1); break;
		case 2: sinkhole = o.u == o.v; break;
		case 3: sinkhole = o.u < o.v; break;
		case 4: sinkhole = o.u.add(o.v); break;
		case 5: sinkhole = o.u.subtract(o.v); break;
		case 6: sinkhole = o.u.shiftLeft1(); break;
		case 7: o.u.shiftRight1(); break;
		case 8: o.u.reciprocal(o.v); break;
		case 9: o.f.replace(o.g, 1); break;
		case 10: sinkhole = o.f == o.g; break;
		case 11: sinkhole = o.f < o.g; break;
		case 12: o.f.add(o.g); break;
		case 13: o.f.subtract(o.g); break;
		case 14: o.f.multiply2(); break;
		case 15: o.f.multiply(o.g); break;
		case 16: o.f.square(); break;
		case 17: o.f.reciprocal(); break;
		case 18: o.p.replace(o.q, 1); break;
		case 19: sinkhole = o.p.isZero(); break;
		case 20: sinkhole = o.p == o.q; break;
		case 21: o.p.twice(); break;
		case 22: o.p.add(o.q); break;
		case 23: o.p.multiply(o.u); break;
		case 24: o.p.normalize(); break;
		case 25: sinkhole = o.p.isOnCurve(); break;
		case 26: sinkhole = Ecdsa::sign(o.u, o.h, o.v, o.r, o.s); break;
		case 27: sinkhole = Ecdsa::verify(o.p, o.h, o.r, o.s); break;
	}
	mode = OFF;
	return measured;
}
const char *const ROWS[28] = {
	"uiReplace", "uiSwap", "uiEquals", "uiLessThan", "uiAdd", "uiSubtract", "uiShiftLeft1", "uiShiftRight1", "uiReciprocal",
	"fiReplace", "fiEquals", "fiLessThan", "fiAdd", "fiSubtract", "fiMultiply2", "fiMultiply", "fiSquare", "fiReciprocal",
	"cpReplace", "cpIsZero", "cpEquals", "cpTwice", "cpAdd", "cpMultiply", "cpNormalize", "cpIsOnCurve",
	"edSign", "edVerify",
};
bool lastOfGroup(int k) { return k == 8 || k == 17 || k == 25 || k == 27; }

std::string row(long long n, const char *name) {
	std::string r;
	int digits = 0;
	do {
		if (digits && digits % 3 == 0)
			r += ' ';
		r += static_cast<char>('0' + n % 10);
		n /= 10;
		digits++;
	} while (n);
	while (r.size() < 11)
		r += ' ';
	std::reverse(r.begin(), r.end());
	return r + "  " + name + "\n";
}

// Runs the program in a process of its own; returns its exit status and leaves what it printed
int program(int runs, std::string &out) {
	int fd = memfd_create("out", 0);
	REQUIRE(fd >= 0, "no memory file");
	pid_t pid = fork();
	if (pid == 0) {
		dup2(fd, 1);
		int rc = 0;
		for (int i = 0; i < runs; i++) {
			mode = FORWARD;
			rc |= opcount_main();
			mode = OFF;
		}
		std::cout.flush();
		fflush(stdout);
		_exit(rc & 0xFF);
	}
	int st = 0;
	waitpid(pid, &st, 0);
	off_t n = lseek(fd, 0, SEEK_END);
	out.assign(static_cast<size_t>(n), '\0');
	if (n && pread(fd, &out[0], static_cast<size_t>(n), 0) != n)
		out.clear();
	close(fd);
	return WIFEXITED(st) ? WEXITSTATUS(st) : 256 + WTERMSIG(st);
}

}

PROPERTY(opcount_report) {
	// As it is, larger, smaller (equal counts everywhere), or with weights for the functions called
	static const long POW[] = {1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000};
	size_t kind = s.weighted({2, 2, 6});
	factor = 1, offset = 0, weightMax = 0, weightSeed = 0;
	if (kind == 1) {
		factor = s.chance(1, 4) ? 0 : POW[s.below(8)] * static_cast<long>(s.range(1, 9));
		offset = s.chance(1, 2) ? 0 : static_cast<long>(s.below(POW[s.below(6)] + 1));
	} else if (kind == 2) {
		factor = s.chance(1, 2) ? 1 : s.chance(1, 4) ? 0 : static_cast<long>(s.below(POW[s.below(7)] + 1));
		offset = s.chance(2, 3) ? 0 : static_cast<long>(s.below(POW[s.below(5)] + 1));
		weightMax = POW[s.range(1, 7)];
		weightSeed = s.u64();
	}
	int runs = s.chance(1, 4) ? 2 : 1;
	s.note("each count times %ld plus %ld, entering a function counts below %ld (%016llx), %d run(s)\n", factor, offset, weightMax, static_cast<unsigned long long>(weightSeed), runs);
	std::string want;
	long long least = -1, most = 0;
	for (int k = 0; k < 28; k++) {
		long long n = cost(k);
		REQUIRE(n >= 0, "%s counted %lld operations", ROWS[k], n);
		if (least < 0 || n < least) least = n;
		most = std::max(most, n);
		want += row(n, ROWS[k]);
		if (lastOfGroup(k))
			want += "\n";
	}
	if (runs == 2)
		want += want;
	if (kind) s.nontrivial();
	s.label(kind == 0 ? "counts as they are" : kind == 1 ? "counts scaled" : "functions weighted");
	if (most > 999999999) s.label("more than nine digits");
	if (most > 999999999999LL) s.label("more than twelve digits");
	if (least == 0) s.label("an operation that counts nothing");
	std::string got;
	int rc = program(runs, got);
	REQUIRE(rc == 0, rc < 256 ? "the program ended with status %d" : "the program was ended by signal %d", rc & 0xFF);
	if (got != want) {
		size_t at = 0, line = 1;
		while (at < got.size() && at < want.size() && got[at] == want[at])
			line += want[at++] == '\n';
		size_t b = want.rfind('\n', at ? at - 1 : 0);
		b = at && b != std::string::npos && b < at ? b + 1 : 0;
		auto lineOf = [b](const std::string &x) { return b >= x.size() ? std::string("(end)") : x.substr(b, x.find('\n', b) - b); };
		pbt::fail("line %zu is \"%s\", not \"%s\"", line, lineOf(got).c_str(), lineOf(want).c_str());
	}
}
