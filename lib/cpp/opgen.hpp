/* Generated calls of the operations in ops.hpp */
#pragma once
#include "gen.hpp"
#include "ops.hpp"

namespace opgen {

struct Call {
	int op;
	gen::Bytes data[5];  // What each operand holds before the call
	uint64_t arg = 0;
	bool same[5] = {};   // Operand i is the same object as an earlier input of its kind
	std::string text() const;
};

// A call of the given operation within its documented domain
Call call(pbt::Src &s, int op);
// Any operation; the slow ones less often (never, if slow is 0)
int anyOp(pbt::Src &s, unsigned slow);
// The same operation with something small changed
Call variation(pbt::Src &s, const Call &c);
// Takes some operands from earlier calls
void borrow(pbt::Src &s, Call &c, const std::vector<Call> &from);

// What a call produced: the return value and every output, without the parts that have no defined value
// (canon: a point whose representation is not specified is shown in affine coordinates)
std::string outcome(const Call &c, uint64_t ret, const uint8_t *const *mem, bool canon = false);

// Runs a call on ordinary, aligned, roomy memory
typedef uint64_t (*RunFn)(int, void *const *, const size_t *, uint64_t);
std::string runPlain(const Call &c, RunFn f = ops_run, uint8_t fill = 0, bool canon = false);

// Deep stack use that leaves the given byte where later calls have their variables
void dirtyStack(uint8_t fill);

}
