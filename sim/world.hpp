// The simulated world: memory under the simulator's control, URL objects living in it,
// and observation of everything a caller can see.
#pragma once
#include "core.hpp"
#include <boost/url/basic_url.hpp>
#include <boost/url/url.hpp>
#include <boost/url/url_view.hpp>
#include <boost/url/url_base.hpp>
#include <boost/url/static_pool.hpp>
#include <boost/url/error.hpp>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <memory>
#include <new>
#include <stdexcept>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>

#if defined(__has_feature)
# if __has_feature(address_sanitizer)
#  define SIM_ASAN 1
# endif
#endif
#ifndef SIM_ASAN
# define SIM_ASAN 0
#endif

// per-thread when caller threads are simulated
#ifdef SIM_THREADS
# define SIM_TLS thread_local
#else
# define SIM_TLS
#endif

namespace sim {
namespace urls = boost::urls;
using urls::string_view;

inline std::string str(string_view s) { return s.size() ? std::string(s.data(), s.size()) : std::string(); }

struct Violation { std::string label, what; };
[[noreturn]] inline void violate(std::string label, std::string what) { throw Violation{ std::move(label), std::move(what) }; }

//---------------------------------------------------------------- memory
struct Stats {
    uint64_t runs = 0, ops = 0, checks = 0, requests = 0;
    uint64_t op_count[(int)K::COUNT] = {};
    uint64_t fired[6] = {};               // by fault kind
    uint64_t fired_budget = 0, fired_maxsize = 0, fired_pool = 0;
    uint64_t rejected = 0, nomem = 0, retries_ok = 0;
    std::map<std::string, uint64_t> probes;
};
extern SIM_TLS Stats stats;

// what a refusal throws; the mark tells it apart from anything the library throws
struct Mark { long serial; };
struct MarkedBadAlloc : std::bad_alloc, Mark { explicit MarkedBadAlloc(long n) : Mark{ n } {} };
struct MarkedQuota : Mark { explicit MarkedQuota(long n) : Mark{ n } {} };                      // not a standard exception
struct MarkedInvalid : std::invalid_argument, Mark { explicit MarkedInvalid(long n) : std::invalid_argument("refused"), Mark{ n } {} };
struct MarkedLength : std::length_error, Mark { explicit MarkedLength(long n) : std::length_error("refused"), Mark{ n } {} };
struct MarkedRange : std::out_of_range, Mark { explicit MarkedRange(long n) : std::out_of_range("refused"), Mark{ n } {} };
struct MarkedRuntime : std::runtime_error, Mark { explicit MarkedRuntime(long n) : std::runtime_error("refused"), Mark{ n } {} };

struct Env;
struct Ctl {                              // what the simulator is doing right now
    bool armed = false;                   // inside library code
    Fault f;
    long n_alloc = 0, n_gnew = 0;         // requests made since begin()
    long hit = 0;                         // faults that fired since begin()
    long limited = 0;                     // refusals because the world is small
    bool inject = true;
    unsigned char junk = 0xA5;
    unsigned char twist = 0;              // where things lie in memory
    size_t shift(size_t n) const { size_t v = (junk + 7 * twist + 5 * n) % 32; return SIM_ASAN && v >= 16 ? 0 : v % 16; }
    std::string err;                      // first misuse of memory
    long live_gnew = 0;                   // blocks of library code on the global heap
    uint64_t trace = FNV0;                // sequence of requests
    int exc = 0;                          // what refusals throw
    long serial = 0;
    void (*hook)(int) = nullptr;          // the caller's code runs: 0 memory is asked for, 1 given back, 2 an exception is handled, 3 on its way
    void caller(int where) { if (hook) { bool s = armed; armed = false; hook(where); armed = s; } }
    [[noreturn]] void refuse(bool global);
    void begin(Fault const& fault) { f = fault; n_alloc = n_gnew = hit = limited = 0; }
    void misuse(std::string s) { if (err.empty()) err = std::move(s); }
    bool fail(bool global) {
        long n = global ? ++n_gnew : ++n_alloc;
        ++stats.requests;
        bool r = false;
        switch (f.kind) {
        case F::none: break;
        case F::alloc: r = !global && n >= f.k && n < f.k + f.len; break;
        case F::starve: r = !global; break;
        case F::gnew: r = global && n >= f.k && n < f.k + f.len; break;
        case F::gstarve: r = global; break;
        case F::total: r = true; break;
        }
        if (r) { ++hit; ++stats.fired[(int)f.kind]; }
        return r;
    }
};
extern SIM_TLS Ctl ctl;
struct Quiet { bool s; Quiet() : s(ctl.armed) { ctl.armed = false; } ~Quiet() { ctl.armed = s; } };

struct Env {
    struct Blk { size_t n; int arena; size_t shift; };
    struct Dead { char* first; size_t second, shift; };
    std::unordered_map<void*, Blk> live;
    std::vector<Dead> dead;      // kept until the end so that nothing is reused
    long budget = -1, used = 0;
    size_t max = size_t(-1) / 4;
    void* get(size_t n, int arena, size_t align = 1);
    void put(void* p, size_t n, int arena);
    void sweep();                                     // guard bytes of all blocks
    ~Env();
};
extern SIM_TLS Env* default_env;

template<class T>
struct SimAlloc {
    using value_type = T;
    Env* env; int arena;
    SimAlloc() noexcept : env(default_env), arena(-1) {}
    SimAlloc(Env& e, int a) noexcept : env(&e), arena(a) {}
    template<class U> SimAlloc(SimAlloc<U> const& o) noexcept : env(o.env), arena(o.arena) {}
    T* allocate(size_t n) { return static_cast<T*>(env->get(n * sizeof(T), arena, alignof(T))); }
    void deallocate(T* p, size_t n) noexcept { env->put(p, n * sizeof(T), arena); }
    size_t max_size() const noexcept { return env->max / sizeof(T); }
    template<class U> bool operator==(SimAlloc<U> const& o) const noexcept { return env == o.env && arena == o.arena; }
    template<class U> bool operator!=(SimAlloc<U> const& o) const noexcept { return !(*this == o); }
};

void dirty_stack(unsigned char);

//---------------------------------------------------------------- URL objects
using PoolAlloc = urls::basic_static_pool::allocator_type<char>;
using SimUrl = urls::basic_url<SimAlloc<char>>;
using PoolUrl = urls::basic_url<PoolAlloc>;

struct Holder {
    virtual ~Holder() {}
    virtual urls::url_base& b() = 0;
    virtual Holder* copy() = 0;
    virtual Holder* move() = 0;
    virtual void assign(Holder&) = 0;
    virtual void massign(Holder&) = 0;
    static void* operator new(size_t n) { void* p = std::malloc(n); std::memset(p, ctl.junk, n); return p; }
    static void operator delete(void* p) { std::free(p); }
};
template<class U>
struct HolderT : Holder {
    U u;
    template<class... A> explicit HolderT(int, A&&... a) : u(std::forward<A>(a)...) {}
    urls::url_base& b() override { return u; }
    Holder* copy() override { return new HolderT(0, const_cast<U const&>(u)); }
    Holder* move() override { return new HolderT(0, std::move(u)); }
    void assign(Holder& o) override { u = const_cast<U const&>(static_cast<HolderT&>(o).u); }
    void massign(Holder& o) override { u = std::move(static_cast<HolderT&>(o).u); }
};

enum class St { ok, rejected, nomem };
struct Outcome {
    St st = St::ok;
    std::string exc;
    long index = -1;         // position of a returned iterator
    bool self = true;        // a setter returned *this
    std::string what;        // text of the exception (threads and environments only)
    std::string copied, type; // the same of a copy which outlives it, and its type (environments only)
    long mark = 0;           // the exception is the one a refusal raised
    char const* walk = "";   // what is wrong with the returned iterator
};

// An argument in a block of exactly its size or, where no sanitizer watches the ends of the
// block, between bytes which depend on the run. It must not be written to.
struct Arg {
    static constexpr size_t M = SIM_ASAN ? 0 : 24;
    char* block; char* p; size_t n; bool null; std::string was;
    static char margin(size_t i) { return "0aF%25:/@?#[]=&.\0~%41Z9;"[(i * 7 + ctl.junk) % 24]; }
    Arg(std::string const& s, bool null_) : n(s.size()), null(null_ && s.empty()), was(s) {
        size_t const d = ctl.shift(n);
        block = static_cast<char*>(std::malloc(n + 2 * M + d ? n + 2 * M + d : 1));
        p = block + d + M;
        for (size_t i = 0; i < M; ++i) { (p - M)[i] = margin(i); p[n + i] = margin(i + M); }
        std::memcpy(p, s.data(), n);
    }
    bool intact() const {
        for (size_t i = 0; i < M; ++i) if ((p - M)[i] != margin(i) || p[n + i] != margin(i + M)) return false;
        return std::memcmp(p, was.data(), n) == 0;
    }
    ~Arg() { if (!intact()) ctl.misuse("an argument was written to"); std::free(block); }
    Arg(Arg const&) = delete;
    operator string_view() const { return null ? string_view() : string_view(p, n); }
};

template<class Fn>
Outcome guarded(Fault const& f, Fn fn) {
    Outcome o;
#ifdef SIM_WHAT
    struct Copy { std::optional<std::logic_error> e; Outcome& o; ~Copy() { if (e) o.copied = e->what(); } } copy{ {}, o };
#endif
    dirty_stack(ctl.junk);
    ctl.begin(f);
    try {
        ctl.armed = true;
#if defined(SIM_THREADS) || defined(SIM_WHAT)
        try {
#ifdef SIM_WHAT
            struct Leaving { int n = std::uncaught_exceptions(); ~Leaving() { if (std::uncaught_exceptions() > n) ctl.caller(3); } } leaving;
#endif
            fn(o);
        }
        catch (std::exception const& e) {
            ctl.caller(2);
            ctl.armed = true;
            char const* w = e.what();
            ctl.armed = false;
            o.what = w;
#ifdef SIM_WHAT
            o.type = typeid(e).name();
            if (auto l = dynamic_cast<std::logic_error const*>(&e)) copy.e.emplace(*l);
#endif
            throw;
        }
#else
        fn(o);
#endif
        ctl.armed = false;
    }
    catch (Mark const& m) { ctl.armed = false; o.st = St::nomem; o.exc = "refused"; o.mark = m.serial; }
    catch (std::bad_alloc const&) { ctl.armed = false; o.st = St::nomem; o.exc = "bad_alloc"; }
    catch (std::length_error const&) { ctl.armed = false; o.st = St::nomem; o.exc = "length_error"; }
    catch (std::out_of_range const&) { ctl.armed = false; o.st = St::rejected; o.exc = "out_of_range"; }
    catch (std::invalid_argument const&) { ctl.armed = false; o.st = St::rejected; o.exc = "invalid_argument"; }
    catch (std::exception const&) { ctl.armed = false; o.st = St::rejected; o.exc = "exception"; }
    catch (...) { ctl.armed = false; o.st = St::rejected; o.exc = "unknown"; }
    ctl.f = Fault{};
    return o;
}

struct World {
    bool twin;                                   // fault-free companion
    Env env;
    std::vector<char> poolbuf;
    std::unique_ptr<urls::basic_static_pool> pool;
    struct Slot { std::unique_ptr<Holder> h; int mem = 0; };
    std::vector<Slot> slots;

    World(Plan const& p, bool twin_, bool limits = true, bool mems = true);
    ~World();
    Holder* make(int slot, string_view const* s, int variant);
    urls::url_base& at(int u) { return slots[u % slots.size()].h->b(); }
    int idx(int u) const { return (int)((size_t)u % slots.size()); }
    Outcome exec(Op const& op, Fault const& f);
    bool limited() const { return env.budget >= 0 || env.max < (size_t(-1) / 8); }
};

Outcome apply_to(urls::url_base& b, Op const& op, Fault const& f);   // setters and segment edits

//---------------------------------------------------------------- observation
enum {
    O_text, O_size, O_data, O_nul, O_origin, O_scheme, O_has_authority, O_authority, O_has_userinfo, O_userinfo, O_userinfo_part,
    O_user, O_password, O_password_part, O_host_type, O_host_and_port, O_host, O_port, O_port_part, O_path,
    O_query, O_query_part, O_fragment, O_fragment_part,
    O_segs, O_segs_rev, O_csegs, O_csegs_rev, O_params, O_params_rev, O_cparams, O_cparams_rev,
    O_dec_user, O_dec_password, O_dec_host, O_dec_query, O_dec_fragment,
    O_COUNT
};
extern char const* const obs_names[];
struct Obs { std::string f[O_COUNT]; };
Obs observe(urls::url_base&);
Obs observe(urls::url_view const&);
Obs expected(M const&);
// empty: equal; otherwise a description of the first difference
std::string diff(Obs const& got, Obs const& want, uint64_t skip = 0);
constexpr uint64_t bit(int i) { return uint64_t(1) << i; }
constexpr uint64_t SEQ_BITS = bit(O_segs) | bit(O_segs_rev) | bit(O_csegs) | bit(O_csegs_rev) | bit(O_params) | bit(O_params_rev) | bit(O_cparams) | bit(O_cparams_rev);
constexpr uint64_t DEC_BITS = bit(O_dec_user) | bit(O_dec_password) | bit(O_dec_host) | bit(O_dec_query) | bit(O_dec_fragment);
constexpr uint64_t VIEW_SKIP = bit(O_password_part) | bit(O_nul);
uint64_t hash(Obs const&);
std::string seq_text(std::vector<std::string> const&);
std::string par_text(std::vector<std::pair<std::string, std::string>> const&);

// a step away and back leads to the same element
template<class I>
bool there_and_back(I it, bool forward, bool post) {
    I x = it;
    if (forward) { if (post) { x++; x--; } else { ++x; --x; } }
    else if (post) { x--; x++; } else { --x; ++x; }
    return x == it && !(x != it);
}
inline bool same_element(string_view a, string_view b) { return a.size() == b.size() && (a.empty() || std::memcmp(a.data(), b.data(), a.size()) == 0); }
template<class S>
std::string seg_fwd(S s, size_t limit, bool post) {
    std::vector<std::string> v;
    auto it = s.begin();
    auto const e = s.end();
    while (it != e) {
        if (v.size() > limit) return "iteration does not end";
        if (!there_and_back(it, true, post)) return "a step forward and back leads elsewhere";
        auto back = it; ++back; --back;
        if (!same_element((*back).encoded_string(), it->encoded_string())) return "a step forward and back leads to another element";
        if (post) { v.push_back(str(it->encoded_string())); it++; }
        else { v.push_back(str((*it).encoded_string())); ++it; }
    }
    if (s.size() != v.size() || s.empty() != v.empty()) return "size()=" + std::to_string(s.size()) + " but iterates over " + seq_text(v);
    return seq_text(v);
}
template<class S>
std::string seg_rev(S s, size_t limit, bool post) {
    std::vector<std::string> v;
    auto const b = s.begin();
    auto it = s.end();
    while (it != b) {
        if (v.size() > limit) return "reverse iteration does not end";
        if (!there_and_back(it, false, post)) return "a step back and forward leads elsewhere";
        if (post) it--; else --it;
        v.push_back(str((*it).encoded_string()));
    }
    return seq_text(std::vector<std::string>(v.rbegin(), v.rend()));
}
template<class S>
std::string par_fwd(S s, size_t limit, bool post) {
    std::vector<std::pair<std::string, std::string>> v;
    auto it = s.begin();
    auto const e = s.end();
    while (it != e) {
        if (v.size() > limit) return "iteration does not end";
        if (!there_and_back(it, true, post)) return "a step forward and back leads elsewhere";
        auto x = *it;
        auto back = it; ++back; --back;
        if (!same_element((*back).encoded_key(), x.encoded_key()) || !same_element(back->encoded_value(), x.encoded_value())) return "a step forward and back leads to another element";
        v.push_back({ str(x.encoded_key()), str(it->encoded_value()) });
        if (post) it++; else ++it;
    }
    if (s.size() != v.size() || s.empty() != v.empty()) return "size()=" + std::to_string(s.size()) + " but iterates over " + par_text(v);
    return par_text(v);
}
template<class S>
std::string par_rev(S s, size_t limit, bool post) {
    std::vector<std::pair<std::string, std::string>> v;
    auto const b = s.begin();
    auto it = s.end();
    while (it != b) {
        if (v.size() > limit) return "reverse iteration does not end";
        if (!there_and_back(it, false, post)) return "a step back and forward leads elsewhere";
        if (post) it--; else --it;
        v.push_back({ str(it->encoded_key()), str((*it).encoded_value()) });
    }
    return par_text(std::vector<std::pair<std::string, std::string>>(v.rbegin(), v.rend()));
}

//---------------------------------------------------------------- runs
struct RunResult {
    bool violated = false;
    std::string label, what;
    uint64_t trace = 0;
    bool nontrivial = false;
};
RunResult execute(Plan const&);
void start_pristine();                            // fork the process other runs are compared with
extern std::unordered_set<uint64_t>* states;      // distinct states reached
extern std::map<std::string, uint64_t>* xstats;   // further counters for the evidence

}
