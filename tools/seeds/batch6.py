exec(open("/verif/tools/seeds/batch3.py").read().split('# --- Java arithmetic and curve ---')[0])
SEEDS = []
COUNT_SH = r'''#!/bin/bash
# Run in /repo after its build: a program built with COUNT_OPS must find the same totals for all values
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'find "$t" -delete' EXIT
l="cpp/Utils.cpp cpp/Uint256.cpp cpp/FieldInt.cpp cpp/CurvePoint.cpp cpp/Sha256Hash.cpp cpp/Sha256.cpp cpp/Ecdsa.cpp"
g++ -std=c++11 -w -O1 -DCOUNT_OPS -Icpp "$here/main.cpp" $l -o "$t/a" || exit 2
ulimit -c 0
timeout 100 "$t/a"
'''
COUNT_MAIN = '''#include "Ecdsa.hpp"
#include "CurvePoint.hpp"
#include "CountOps.hpp"
#include <cstdio>
static long long total;
void countOps(long n) { total += n; }
static Uint256 rnd(uint64_t &s) {
	uint8_t b[32];
	for (uint8_t &x : b) { s = s * 6364136223846793005u + 1442695040888963407u; x = (uint8_t)(s >> 56); }
	b[0] &= 0x7F;
	return Uint256(b);
}
int main() {
	long long first = -1;
	uint64_t s = 1;
	for (int i = 0; i < %d; i++) {
		Uint256 a = rnd(s), b = rnd(s), c = rnd(s), d;
		(void)d;
		total = 0;
		%s
		if (first == -1) first = total;
		if (total != first) { printf("%%lld %%lld\\n", first, total); return 1; }
	}
	return 0;
}
'''
def K(id, edits, needs, breaks, body, n=2000):
	SEEDS.append(dict(id=id, property="C35", lang="sh", edits=edits, needs=needs, breaks=breaks, sh=COUNT_SH, files={"main.cpp": COUNT_MAIN % (n, body)}))
K("c35-table-hit", [("cpp/CurvePoint.cpp", "\t\t\tq.replace(table[j], static_cast<uint32_t>(j == inc));\n\t\t\tcountOps(1 * arithmeticOps);\n", "\t\t\tq.replace(table[j], static_cast<uint32_t>(j == inc));\n\t\t\tcountOps((j == inc && j != 0 ? 2 : 1) * arithmeticOps);\n")],
	"scalars with different numbers of zero digits in base 16", "the number of operations of a multiplication tells how many digits are zero",
	"CurvePoint p = CurvePoint::G; p.multiply(a);", 40)
K("c35-borrow", [("cpp/Uint256.cpp", "\t\tb.add(modulus, borrow);\n\t\tcountOps(2 * arithmeticOps);\n", "\t\tb.add(modulus, borrow);\n\t\tcountOps((2 + static_cast<int>(x < b ? 1 : 0)) * arithmeticOps);\n")],
	"reciprocals of two values, in a build that counts", "the count of a reciprocal depends on its operand",
	"a.reciprocal(CurvePoint::ORDER);", 40)
K("c35-carry-last", [("cpp/FieldInt.cpp", "\t\t\t\tproduct1[i] = static_cast<uint32_t>(sum);\n\t\t\t\tcarry = static_cast<uint32_t>(sum >> 32);\n\t\t\t\tassert(carry <= 0x3D3);\n\t\t\t\tcountOps(2 * arithmeticOps);\n", "\t\t\t\tproduct1[i] = static_cast<uint32_t>(sum);\n\t\t\t\tcarry = static_cast<uint32_t>(sum >> 32);\n\t\t\t\tassert(carry <= 0x3D3);\n\t\t\t\tcountOps((carry == 0x3D2 ? 3 : 2) * arithmeticOps);\n")],
	"factors whose reduction carries 0x3D2 from one word to the next", "a field multiplication counts one operation more for some factors",
	"CurvePoint p = CurvePoint::privateExponentToPublicPoint(a);", 40)
COUNT_SH2 = COUNT_SH.replace("must find the same totals for all values", "must compute what a plain build does").replace('ulimit -c 0\ntimeout 100 "$t/a"\n', 'g++ -std=c++11 -w -O1 -Icpp "$here/main.cpp" $l -o "$t/b" || exit 2\nulimit -c 0\ntimeout 100 "$t/a" > "$t/a.txt"\ntimeout 100 "$t/b" > "$t/b.txt"\ncmp "$t/a.txt" "$t/b.txt" || exit 1\n')
SAME_MAIN = '''#include "Ecdsa.hpp"
#include "CurvePoint.hpp"
#include "CountOps.hpp"
#include <cstdio>
#ifdef COUNT_OPS
void countOps(long n) {}
#endif
static void show(const Uint256 &x) { uint8_t b[32]; x.getBigEndianBytes(b); for (int i = 0; i < 32; i++) printf("%%02x", b[i]); puts(""); }
static Uint256 rnd(uint64_t &s) {
	uint8_t b[32];
	for (uint8_t &x : b) { s = s * 6364136223846793005u + 1442695040888963407u; x = (uint8_t)(s >> 56); }
	return Uint256(b);
}
int main() {
	uint64_t s = 1;
	for (int i = 0; i < 300; i++) {
		Uint256 a = rnd(s), b = rnd(s), d;
		%s
	}
	return 0;
}
'''
def K2(id, edits, needs, breaks, body):
	SEEDS.append(dict(id=id, property="C35", lang="sh", edits=edits, needs=needs, breaks=breaks, sh=COUNT_SH2, files={"main.cpp": SAME_MAIN % body}))
K2("c35-else-add", [("cpp/FieldInt.cpp", "\tuint32_t c = Uint256::add(other);  // Perform addition\n\tassert((c >> 1) == 0);\n\tUint256::subtract(MODULUS, c | static_cast<uint32_t>(*this >= MODULUS));  // Conditionally subtract modulus\n", "\tuint32_t c = Uint256::add(other);\n\tassert((c >> 1) == 0);\n#ifdef COUNT_OPS\n\tc = static_cast<uint32_t>(*this >= MODULUS);\n#else\n\tc |= static_cast<uint32_t>(*this >= MODULUS);\n#endif\n\tUint256::subtract(MODULUS, c);\n")],
	"a field sum of at least two to the 256, in a build that counts", "the carry is dropped in the counting build", "FieldInt x(a), y(b); x.add(y); show(Uint256(x));")
