// The process environment as library code sees it: locale, clocks, random numbers, environment
// variables, errno, rounding mode. Behind the seam of penv.cpp (linker --wrap), decided by the plan.
#pragma once
#include <cstdint>
namespace sim { namespace penv {

constexpr int LOCALES = 4;           // C, Turkish (ISO 8859-9), Latin-1, Greek (ISO 8859-7)
extern char const* const locale_names[LOCALES];
struct State { int loc = 0; int flip_at = 0; int flip_to = 0; uint64_t noise = 0; };
extern bool on;
extern uint64_t consults, flips;     // questions asked of the environment since enter()
// enters an environment; leave() returns what the code inside has changed of it, or nothing
void enter(State const&);
char const* leave();
struct In { char const* changed = nullptr; bool left = false; explicit In(State const& s) { enter(s); } char const* out() { left = true; return leave(); } ~In() { if (!left) leave(); } };

} }
