// Own runtime for code compiled with -fsanitize=thread: every memory access, atomic, lock and
// once-initialisation of the library reports here. This file itself is not instrumented.
//  - deterministic scheduling: threads hand a baton to each other, only at these points
//  - data races: vector clocks over 8-byte cells
#include "tsrt.hpp"
#include <dlfcn.h>
#include <errno.h>
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);
extern char __data_start, _end;
}

namespace {
typedef uint32_t Clk;
struct VC { Clk c[TS_MAX]; };
struct Slot { uint64_t pc : 48; uint64_t tid : 4; uint64_t mask : 8; uint64_t w : 1; uint64_t at : 1; uint64_t used : 1; Clk clk; };
enum { NS = 8, CH = 64 };                      // slots per cell, cells per chunk
struct Cell { Slot s[NS]; };
struct Chunk { Cell c[CH]; };
enum { NCH = 1 << 14 };
uintptr_t* tag;                                // chunk number + 1
Chunk* chunk;
struct Sync { uintptr_t a; VC v; int owner, count, readers, state; };   // state of a guard or once: 0 new, 1 running, 2 done
enum { NSY = 4096 };
Sync* syncs;

struct T {
    sem_t sem;
    pthread_t th;
    VC v, pend, relf;
    bool done, blocked;
    bool const* armed;
} th[TS_MAX];
int nth, cur = -1;
void (*body)(int);
ts_switch const* sw;
int nsw, at_sw;
long left;
long run_length;
ts_report* rep;
sem_t main_sem;
bool live;
__thread int me = -1;
__thread bool in_rt;
__thread uintptr_t stack_lo;
constexpr uintptr_t stack_size = 1 << 20;

void join(VC& a, VC const& b) { for (int i = 0; i < TS_MAX; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

Cell* cell(uintptr_t a, bool make) {
    uintptr_t k = a / 8, ck = k / CH;
    static uintptr_t last; static Chunk* lastc;
    if (last == ck + 1) return &lastc->c[k % CH];
    size_t h = (ck * 0x9E3779B97F4A7C15ull) >> 50;
    for (size_t n = 0; n < NCH; ++n, h = (h + 1) & (NCH - 1)) {
        if (tag[h] == ck + 1) { last = ck + 1; lastc = &chunk[h]; return &chunk[h].c[k % CH]; }
        if (!tag[h]) {
            if (!make) return nullptr;
            tag[h] = ck + 1;
            return &chunk[h].c[k % CH];
        }
    }
    return nullptr;
}
Sync* sync_of(void const* p) {
    uintptr_t a = (uintptr_t)p;
    size_t h = (a * 0x9E3779B97F4A7C15ull) >> 52;
    for (size_t n = 0; n < NSY; ++n, h = (h + 1) & (NSY - 1)) {
        if (syncs[h].a == a) return &syncs[h];
        if (!syncs[h].a) { syncs[h].a = a; syncs[h].owner = -1; return &syncs[h]; }
    }
    static char const m[] = "too many synchronisation objects\n";
    (void)!write(2, m, sizeof m - 1);
    _exit(97);
}
void name(char* out, size_t n, uintptr_t pc) {
    Dl_info i;
    if (dladdr((void*)pc, &i) && i.dli_sname) snprintf(out, n, "%s", i.dli_sname);
    else if (dladdr((void*)pc, &i)) snprintf(out, n, "+0x%lx", (unsigned long)(pc - (uintptr_t)i.dli_fbase));
    else snprintf(out, n, "?");
}
void race(uintptr_t a, Slot const& o, bool w, uintptr_t pc) {
    ++rep->races;
    if (rep->label) return;
    rep->label = 1;
    char n1[380], n2[380];
    name(n1, sizeof n1, pc);
    name(n2, sizeof n2, o.pc);
    char where[64] = "memory";
    Dl_info i;
    if (a >= (uintptr_t)&__data_start && a < (uintptr_t)&_end) snprintf(where, sizeof where, "global data %.40s", dladdr((void*)a, &i) && i.dli_sname ? i.dli_sname : "");
    snprintf(rep->text, sizeof rep->text, "data race on %s: thread %d %s in %s, unordered with thread %d %s in %s", where, me, w ? "writes" : "reads", n1, (int)o.tid, o.w ? "writing" : "reading", n2);
}
// returns: another thread has touched this memory
bool touch(uintptr_t a, size_t n, bool w, bool at, uintptr_t pc) {
    bool hot = a >= (uintptr_t)&__data_start && a < (uintptr_t)&_end;
    T& t = th[me];
    while (n) {
        size_t off = a & 7, m = 8 - off < n ? 8 - off : n;
        uint64_t mask = ((1u << m) - 1) << off;
        Cell* c = cell(a, true);
        if (c) {
            Slot* put = nullptr;
            for (Slot& s : c->s) {
                if (!s.used) { if (!put) put = &s; break; }
                if ((int)s.tid != me) {
                    hot = true;
                    if ((s.mask & mask) && (s.w || w) && !(s.at && at) && s.clk > t.v.c[s.tid]) race(a, s, w, pc);
                } else if (!put && s.w == w && s.at == at && (s.mask & ~mask) == 0) put = &s;
            }
            if (!put) { put = &c->s[(rep->points + a / 8) % NS]; }
            put->pc = pc; put->tid = me; put->mask = mask; put->w = w; put->at = at; put->used = 1;
            put->clk = t.v.c[me];
        }
        a += m;
        n -= m;
    }
    return hot;
}
void forget(uintptr_t a, size_t n) {
    uintptr_t e = (a + n + 7) & ~(uintptr_t)7;
    a &= ~(uintptr_t)7;
    while (a < e) {
        Cell* c = cell(a, false);
        if (!c) { a = (a / (8 * CH) + 1) * (8 * CH); continue; }
        memset(c, 0, sizeof *c);
        a += 8;
    }
}

//---------------------------------------------------------------- scheduling
void to(int t) {                                // hand over the baton
    if (t == me) return;
    int self = me;
    ++rep->switches;
    rep->sched = (rep->sched ^ (rep->points * 8 + (uint64_t)t)) * 1099511628211ull;
    run_length = 0;
    cur = t;
    sem_post(&th[t].sem);
    while (sem_wait(&th[self].sem)) {}
}
int next_runnable(int from) {
    for (int i = 1; i <= nth; ++i) {
        int t = (from + i) % nth;
        if (!th[t].done && !th[t].blocked) return t;
    }
    return -1;
}
long cold;
void load_switch() { cold = 0; if (at_sw < nsw) left = sw[at_sw].gap; }
void point(bool hot) {
    if (!th[me].armed || !*th[me].armed) return;
    ++rep->points;
    if (hot) ++rep->hot;
    if (++run_length > 300000) {                // a spinning thread must let the others go on
        ++rep->forced;
        run_length = 0;
        int t = next_runnable(me);
        if (t >= 0) to(t);
        return;
    }
    if (at_sw >= nsw) return;
    if (sw[at_sw].mode == 1 && !hot) { if (++cold < 1500) return; }
    else if (left-- > 0) return;
    int t = sw[at_sw].target % nth;
    ++at_sw;
    load_switch();
    if (t == me || th[t].done || th[t].blocked) t = next_runnable(t);
    if (t >= 0 && t != me) to(t);
}
void block(char const* what) {                  // wait until somebody changes something
    th[me].blocked = true;
    int t = next_runnable(me);
    if (t < 0) {
        rep->label = 2;
        snprintf(rep->text, sizeof rep->text, "thread %d waits for a %s for ever: no thread can run", me, what);
        _exit(0);
    }
    to(t);
}
void wake() { for (int i = 0; i < nth; ++i) th[i].blocked = false; }

void acquire(Sync* s) { join(th[me].v, s->v); }
void release(Sync* s) { join(s->v, th[me].v); ++th[me].v.c[me]; }

void access(void const* p, size_t n, bool w, uintptr_t pc) {
    if (me < 0 || in_rt || !n) return;
    if ((uintptr_t)p - stack_lo < stack_size) return;      // its own stack
    in_rt = true;
    point(touch((uintptr_t)p, n, w, false, pc));
    in_rt = false;
}
void* entry(void* v) {
    int t = (int)(intptr_t)v;
    while (sem_wait(&th[t].sem)) {}
    stack_lo = (uintptr_t)__builtin_frame_address(0) - stack_size;
    me = t;
    body(t);
    in_rt = true;
    th[t].done = true;
    wake();
    me = -1;
    int n = -1;
    for (int i = 1; i <= nth && n < 0; ++i) if (!th[(t + i) % nth].done) n = (t + i) % nth;
    rep->sched = (rep->sched ^ (rep->points * 8 + 4 + (uint64_t)(n + 1))) * 1099511628211ull;
    run_length = 0;
    if (n >= 0) { cur = n; sem_post(&th[n].sem); }
    else sem_post(&main_sem);
    while (sem_wait(&th[t].sem)) {}             // threads end one after the other
    return nullptr;
}
void ready() {
    if (tag) return;
    tag = (uintptr_t*)mmap(nullptr, NCH * sizeof *tag, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    chunk = (Chunk*)mmap(nullptr, NCH * sizeof *chunk, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
Sync* sync_here(void const* p) {                // usable before anything else
    if (!syncs) syncs = (Sync*)mmap(nullptr, NSY * sizeof *syncs, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    return sync_of(p);
}
}

extern "C" {
void ts_bind(bool const* armed) { if (me >= 0) th[me].armed = armed; }

void ts_run(int n, void (*fn)(int), ts_switch const* s, int ns, ts_report* r) {
    ready();
    (void)sync_here((void const*)&ts_run);
    rep = r;
    memset(rep, 0, sizeof *rep);
    nth = n; body = fn; sw = s; nsw = ns; at_sw = 0;
    load_switch();
    sem_init(&main_sem, 0, 0);
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, stack_size);
    for (int i = 0; i < n; ++i) {
        memset(&th[i].v, 0, sizeof(VC) * 3);
        th[i].v.c[i] = 1;
        th[i].done = th[i].blocked = false;
        th[i].armed = nullptr;
        sem_init(&th[i].sem, 0, 0);
        if (pthread_create(&th[i].th, &at, entry, (void*)(intptr_t)i)) { perror("pthread_create"); _exit(96); }
    }
    cur = 0;
    live = true;
    sem_post(&th[0].sem);
    while (sem_wait(&main_sem)) {}
    for (int i = 0; i < n; ++i) { sem_post(&th[i].sem); pthread_join(th[i].th, nullptr); }
    live = false;
}

//---------------------------------------------------------------- memory
void* malloc(size_t n) {
    void* p = __libc_malloc(n);
    if (me >= 0 && !in_rt && p) forget((uintptr_t)p, malloc_usable_size(p));
    return p;
}
void* calloc(size_t a, size_t b) {
    void* p = __libc_calloc(a, b);
    if (me >= 0 && !in_rt && p) forget((uintptr_t)p, malloc_usable_size(p));
    return p;
}
void free(void* p) {
    if (me >= 0 && !in_rt && p) {
        in_rt = true;
        size_t n = malloc_usable_size(p);
        touch((uintptr_t)p, n < 65536 ? n : 65536, true, false, (uintptr_t)__builtin_return_address(0));
        forget((uintptr_t)p, n);
        in_rt = false;
    }
    __libc_free(p);
}
void* realloc(void* p, size_t n) {
    if (me >= 0 && !in_rt && p) forget((uintptr_t)p, malloc_usable_size(p));
    void* q = __libc_realloc(p, n);
    if (me >= 0 && !in_rt && q) forget((uintptr_t)q, malloc_usable_size(q));
    return q;
}
void* memalign(size_t a, size_t n) {
    void* p = __libc_memalign(a, n);
    if (me >= 0 && !in_rt && p) forget((uintptr_t)p, malloc_usable_size(p));
    return p;
}
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** r, size_t a, size_t n) { *r = memalign(a, n); return *r ? 0 : ENOMEM; }

//---------------------------------------------------------------- accesses
#define PC (uintptr_t)__builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(N) \
    void __tsan_read##N(void* p) { access(p, N, false, PC); } \
    void __tsan_write##N(void* p) { access(p, N, true, PC); } \
    void __tsan_unaligned_read##N(void* p) { access(p, N, false, PC); } \
    void __tsan_unaligned_write##N(void* p) { access(p, N, true, PC); } \
    void __tsan_volatile_read##N(void* p) { access(p, N, false, PC); } \
    void __tsan_volatile_write##N(void* p) { access(p, N, true, PC); } \
    void __tsan_unaligned_volatile_read##N(void* p) { access(p, N, false, PC); } \
    void __tsan_unaligned_volatile_write##N(void* p) { access(p, N, true, PC); } \
    void __tsan_read_write##N(void* p) { access(p, N, false, PC); access(p, N, true, PC); } \
    void __tsan_unaligned_read_write##N(void* p) { access(p, N, false, PC); access(p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, uintptr_t n) { access(p, n, false, PC); }
void __tsan_write_range(void* p, uintptr_t n) { access(p, n, true, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, true, PC); }
void* __tsan_memcpy(void* d, void const* s, uintptr_t n) { access(s, n, false, PC); access(d, n, true, PC); return __builtin_memcpy(d, s, n); }
void* __tsan_memmove(void* d, void const* s, uintptr_t n) { access(s, n, false, PC); access(d, n, true, PC); return __builtin_memmove(d, s, n); }
void* __tsan_memset(void* d, int c, uintptr_t n) { access(d, n, true, PC); return __builtin_memset(d, c, n); }

//---------------------------------------------------------------- atomics
}
namespace {
struct Atom {                                    // around one atomic operation
    bool on; Sync* s;
    Atom(void const* p, size_t n, bool w, uintptr_t pc) : on(me >= 0 && !in_rt), s(nullptr) {
        if (!on) return;
        in_rt = true;
        touch((uintptr_t)p, n, w, true, pc);
        point(true);
        s = sync_of(p);
    }
    void load(int mo) {
        if (!on) return;
        if (mo == __ATOMIC_RELAXED) join(th[me].pend, s->v); else if (mo != __ATOMIC_RELEASE) acquire(s);
    }
    void store(int mo) {
        if (!on) return;
        if (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) release(s);
        else join(s->v, th[me].relf);
    }
    ~Atom() { if (on) { wake(); in_rt = false; } }
};
void fence(int mo) {
    if (me < 0 || in_rt) return;
    T& t = th[me];
    if (mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) join(t.v, t.pend);
    if (mo == __ATOMIC_SEQ_CST) { static char g; Sync* s = sync_of(&g); acquire(s); release(s); }
    if (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) { t.relf = t.v; ++t.v.c[me]; }
}
}
extern "C" {
#define AT(N, A) \
    A __tsan_atomic##N##_load(A const volatile* p, int mo) { Atom x((void*)p, sizeof(A), false, PC); A r = __atomic_load_n(p, __ATOMIC_SEQ_CST); x.load(mo); return r; } \
    void __tsan_atomic##N##_store(A volatile* p, A v, int mo) { Atom x((void*)p, sizeof(A), true, PC); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); x.store(mo); } \
    A __tsan_atomic##N##_exchange(A volatile* p, A v, int mo) { Atom x((void*)p, sizeof(A), true, PC); A r = __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); x.load(mo); x.store(mo); return r; } \
    A __tsan_atomic##N##_fetch_add(A volatile* p, A v, int mo) { Atom x((void*)p, sizeof(A), true, PC); A r = __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); x.load(mo); x.store(mo); return r; } \
    A __tsan_atomic##N##_fetch_sub(A volatile* p, A v, int mo) { Atom x((void*)p, sizeof(A), true, PC); A r = __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); x.load(mo); x.store(mo); return r; } \
    A __tsan_atomic##N##_fetch_and(A volatile* p, A v, int mo) { Atom x((void*)p, sizeof(A), true, PC); A r = __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); x.load(mo); x.store(mo); return r; } \
    A __tsan_atomic##N##_fetch_or(A volatile* p, A v, int mo) { Atom x((void*)p, sizeof(A), true, PC); A r = __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); x.load(mo); x.store(mo); return r; } \
    A __tsan_atomic##N##_fetch_xor(A volatile* p, A v, int mo) { Atom x((void*)p, sizeof(A), true, PC); A r = __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); x.load(mo); x.store(mo); return r; } \
    A __tsan_atomic##N##_fetch_nand(A volatile* p, A v, int mo) { Atom x((void*)p, sizeof(A), true, PC); A r = __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); x.load(mo); x.store(mo); return r; } \
    int __tsan_atomic##N##_compare_exchange_strong(A volatile* p, A* c, A v, int mo, int fmo) { \
        Atom x((void*)p, sizeof(A), true, PC); int r = __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        if (r) { x.load(mo); x.store(mo); } else x.load(fmo); return r; } \
    int __tsan_atomic##N##_compare_exchange_weak(A volatile* p, A* c, A v, int mo, int fmo) { return __tsan_atomic##N##_compare_exchange_strong(p, c, v, mo, fmo); } \
    A __tsan_atomic##N##_compare_exchange_val(A volatile* p, A c, A v, int mo, int fmo) { __tsan_atomic##N##_compare_exchange_strong(p, &c, v, mo, fmo); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { fence(mo); }
void __tsan_atomic_signal_fence(int) {}

//---------------------------------------------------------------- locks
#define ENTER bool on = me >= 0 && !in_rt; bool was = in_rt; in_rt = true; if (on) point(true); Sync* s = sync_here(m)
#define LEAVE in_rt = was
static int who() { return me < 0 ? 100 : me; }
int pthread_mutex_lock(pthread_mutex_t* m) {
    ENTER;
    bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
    while (s->owner != -1 && !(rec && s->owner == who())) { if (!on) { LEAVE; return EDEADLK; } block("mutex"); }
    s->owner = who();
    ++s->count;
    if (on) acquire(s);
    LEAVE;
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    ENTER;
    bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
    int r = EBUSY;
    if (s->owner == -1 || (rec && s->owner == who())) { s->owner = who(); ++s->count; r = 0; if (on) acquire(s); }
    LEAVE;
    return r;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    ENTER;
    if (on) release(s);
    if (s->count > 0 && --s->count == 0) { s->owner = -1; wake(); }
    LEAVE;
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
    ENTER;
    while (s->owner != -1) { if (!on) { LEAVE; return EDEADLK; } block("lock"); }
    ++s->readers;
    if (on) acquire(s);
    LEAVE;
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
    ENTER;
    while (s->owner != -1 || s->readers) { if (!on) { LEAVE; return EDEADLK; } block("lock"); }
    s->owner = who();
    if (on) acquire(s);
    LEAVE;
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
    ENTER;
    if (on) release(s);
    if (s->owner == who()) s->owner = -1; else if (s->readers) --s->readers;
    wake();
    LEAVE;
    return 0;
}
int sched_yield(void) {
    if (me < 0 || in_rt) return 0;
    in_rt = true;
    int t = next_runnable(me);
    if (t >= 0) to(t);
    in_rt = false;
    return 0;
}
int __cxa_guard_acquire(uint64_t* m) {
    ENTER;
    for (;;) {
        if (__atomic_load_n((char*)m, __ATOMIC_ACQUIRE)) { if (on) acquire(s); LEAVE; return 0; }
        if (s->state != 1) break;
        if (!on || s->owner == me) { fprintf(stderr, "recursive initialisation of a local static\n"); abort(); }
        block("local static");
    }
    s->state = 1;
    s->owner = who();
    LEAVE;
    return 1;
}
void __cxa_guard_release(uint64_t* m) {
    ENTER;
    if (on) release(s);
    s->state = 2;
    s->owner = -1;
    __atomic_store_n((char*)m, 1, __ATOMIC_RELEASE);
    wake();
    LEAVE;
}
void __cxa_guard_abort(uint64_t* m) {
    ENTER;
    if (on) release(s);
    s->state = 0;
    s->owner = -1;
    wake();
    LEAVE;
}
int pthread_once(pthread_once_t* m, void (*f)(void)) {
    ENTER;
    while (s->state == 1) { if (!on || s->owner == me) { LEAVE; return EDEADLK; } block("once"); }
    if (s->state == 2) { if (on) acquire(s); LEAVE; return 0; }
    s->state = 1;
    s->owner = who();
    in_rt = was;
    try { f(); }
    catch (...) { in_rt = true; s->state = 0; s->owner = -1; wake(); in_rt = was; throw; }
    in_rt = true;
    if (on) release(s);
    s->state = 2;
    s->owner = -1;
    wake();
    LEAVE;
    return 0;
}
}
