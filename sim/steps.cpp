// Work done inside library code, in steps: one per basic block entered, one per 4 bytes looked at
// by the C library on its behalf, 500 per exception caught. The step variant is compiled with -fsanitize-coverage=trace-pc
// and links the memory functions through the counters below.
#include "steps.hpp"
#include "world.hpp"
#include <cstdio>
#include <unistd.h>
namespace sim { namespace steps {

uint64_t now = 0, limit = 0;
char note[600] = "";
char const* base = nullptr;
uint64_t deepest = 0;

[[noreturn]] static void stop() {
    ctl.armed = false;
    char b[900];
    int n = std::snprintf(b, sizeof b, "VIOLATED C19.steps\n%s: still running after %llu steps\ntrace 0\n", note, (unsigned long long)limit);
    (void)!write(1, b, (size_t)n);
    _exit(10);
}
[[noreturn]] static void overflow() {
    ctl.armed = false;
    char b[900];
    int n = std::snprintf(b, sizeof b, "VIOLATED C19.stack\n%s: more than %llu bytes of stack are in use\ntrace 0\n", note, (unsigned long long)MAX_DEPTH);
    (void)!write(1, b, (size_t)n);
    _exit(10);
}
static inline void add(uint64_t n) {
    if (!ctl.armed) return;
    now += n;
    if (now > limit && limit) stop();
}

} }
extern "C" {
void __sanitizer_cov_trace_pc() {
    using namespace sim::steps;
    if (!sim::ctl.armed) return;
    add(1);
    if (!base) return;
    auto d = base - (char const*)__builtin_frame_address(0);
    if (d > (long)deepest) { deepest = (uint64_t)d; if (deepest > MAX_DEPTH) overflow(); }
}
void* __real_memcpy(void*, void const*, size_t);
void* __real_memmove(void*, void const*, size_t);
void* __real_memset(void*, int, size_t);
int __real_memcmp(void const*, void const*, size_t);
void* __real_memchr(void const*, int, size_t);
size_t __real_strlen(char const*);
void* __wrap_memcpy(void* a, void const* b, size_t n) { sim::steps::add(1 + n / 4); return __real_memcpy(a, b, n); }
void* __wrap_memmove(void* a, void const* b, size_t n) { sim::steps::add(1 + n / 4); return __real_memmove(a, b, n); }
void* __wrap_memset(void* a, int c, size_t n) { sim::steps::add(1 + n / 4); return __real_memset(a, c, n); }
// these two stop at what they look for
int __wrap_memcmp(void const* a, void const* b, size_t n) {
    auto x = (unsigned char const*)a, y = (unsigned char const*)b;
    size_t i = 0;
    if (sim::ctl.armed) while (i < n && x[i] == y[i]) ++i;
    sim::steps::add(1 + i / 4);
    return __real_memcmp(a, b, n);
}
void* __wrap_memchr(void const* a, int c, size_t n) {
    void* r = __real_memchr(a, c, n);
    sim::steps::add(1 + (r ? (size_t)((char*)r - (char*)a) : n) / 4);
    return r;
}
void* __real___cxa_begin_catch(void*) noexcept;
void* __wrap___cxa_begin_catch(void* e) noexcept { sim::steps::add(500); return __real___cxa_begin_catch(e); }
size_t __wrap_strlen(char const* a) { size_t n = __real_strlen(a); sim::steps::add(1 + n / 4); return n; }
}
