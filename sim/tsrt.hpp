// Thread runtime of the simulator: one caller thread runs at a time, the plan decides who.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
struct ts_switch { int mode; int gap; int target; };    // after `gap` scheduling points (mode 0: any access, 1: shared accesses only), run `target`
struct ts_report {
    int label;                 // 0 nothing, 1 data race, 2 deadlock
    char text[1000];
    uint64_t points, hot, switches, forced, races, sched;   // sched: hash of the executed interleaving
};
enum { TS_MAX = 4 };
// Runs fn(0..n-1), each on its own thread, under the given schedule.
void ts_run(int n, void (*fn)(int), ts_switch const* sw, int nsw, ts_report* rep);
// The calling thread's "inside library code" flag: switches happen only while it is set.
void ts_bind(bool const* armed);
}
