#pragma once
#include <cstdint>
namespace sim { namespace steps {
// counted while the simulator is inside library code; past the limit the run ends as a violation
extern uint64_t now, limit;
extern char note[600];
// how deep the stack is below base while inside library code
constexpr uint64_t MAX_DEPTH = 96 * 1024;
extern char const* base;
extern uint64_t deepest;
} }
