/*
 * Records the execution trace (branches taken and memory addresses accessed) of the library code run between
 * begin() and end(). Two ways, depending on how the library is compiled (see ct.cpp):
 * - CT_STEP: the library is compiled as usual; the processor single-steps through it, and every instruction
 *   address and every operand address (from a table made with objdump) is recorded.
 * - CT_COUNT: the library is compiled with COUNT_OPS; every number of operations it reports is recorded, and nothing else.
 * - otherwise: the library is compiled with instrumentation calls before every load and store and in every basic block.
 */
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>
namespace ct {
struct Trace { uint64_t hash, count; std::vector<uint64_t> log; };
extern const bool stepping;
extern const bool counting;
void init();
void begin(bool log);
void end(Trace &t);
std::string where(uint64_t ev);  // What a logged event is
}
