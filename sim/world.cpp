#include "world.hpp"
namespace sim {

SIM_TLS Stats stats;
SIM_TLS Ctl ctl;
SIM_TLS Env* default_env = nullptr;
std::unordered_set<uint64_t>* states = nullptr;
std::map<std::string, uint64_t>* xstats = nullptr;

__attribute__((noinline)) void dirty_stack(unsigned char c) {
    volatile char b[6000];
    std::memset(const_cast<char*>(b), c, sizeof b);
    asm volatile("" :: "r"(b) : "memory");
}

//---------------------------------------------------------------- allocator
void Ctl::refuse(bool global) {
    if (!exc) throw std::bad_alloc();
    long n = ++serial;
    switch (global ? 1 : exc) {             // operator new may only throw what derives from bad_alloc
    case 1: throw MarkedBadAlloc(n);
    case 2: throw MarkedQuota(n);
    case 3: throw MarkedInvalid(n);
    case 4: throw MarkedLength(n);
    case 5: throw MarkedRange(n);
    default: throw MarkedRuntime(n);
    }
}
static constexpr size_t RZ = SIM_ASAN ? 0 : 32;
static constexpr unsigned char RZ_BYTE = 0xFB, DEAD_BYTE = 0xDD;

void* Env::get(size_t n, int arena, size_t align) {
    bool armed = ctl.armed;
    Quiet q;
    if (armed && ctl.hook) ctl.hook(0);
    if (n > max) ctl.misuse("a block of " + std::to_string(n) + " bytes was requested although max_size() is " + std::to_string(max));
    if (n > max && n <= (size_t(1) << 34)) throw std::bad_array_new_length();
    if (armed) {
        ctl.trace = ctl.trace * 31 + n;
        if (ctl.fail(false)) ctl.refuse(false);
    }
    if (n > (size_t(1) << 34)) throw std::bad_alloc();
    if (budget >= 0 && used + (long)n > budget) { ++ctl.limited; ++stats.fired_budget; ctl.refuse(false); }
    size_t const shift = ctl.shift(n) / align * align;
    char* raw = static_cast<char*>(std::malloc(n + 2 * RZ + shift + (n + 2 * RZ + shift == 0)));
    char* p = raw + RZ + shift;
    if (RZ) { std::memset(p - RZ, RZ_BYTE, RZ); std::memset(p + n, RZ_BYTE, RZ); }
    std::memset(p, ctl.junk, n);
    live[p] = { n, arena, shift };
    used += (long)n;
    return p;
}
static bool guards_ok(char* p, size_t n) {
    for (size_t i = 0; i < RZ; ++i)
        if ((unsigned char)(p - RZ)[i] != RZ_BYTE || (unsigned char)p[n + i] != RZ_BYTE) return false;
    return true;
}
void Env::put(void* v, size_t n, int arena) {
    Quiet q;
    if (q.s && ctl.hook) ctl.hook(1);
    auto it = live.find(v);
    if (it == live.end()) { ctl.misuse("a block was released which is not live (released twice or never obtained here)"); return; }
    if (it->second.n != n) ctl.misuse("a block of " + std::to_string(it->second.n) + " bytes was released as " + std::to_string(n) + " bytes");
    if (it->second.arena != arena) ctl.misuse("a block was released through an allocator unequal to the one it came from");
    char* p = static_cast<char*>(v);
    size_t m = it->second.n;
    if (!guards_ok(p, m)) ctl.misuse("bytes outside a block were overwritten");
    used -= (long)m;
    size_t const shift = it->second.shift;
    live.erase(it);
    if (SIM_ASAN) std::free(p - RZ - shift);
    else { std::memset(p, DEAD_BYTE, m); dead.push_back({ p, m, shift }); }
}
void Env::sweep() {
    for (auto& b : live) if (!guards_ok(static_cast<char*>(b.first), b.second.n)) ctl.misuse("bytes outside a block were overwritten");
    for (auto& d : dead) {
        if (!guards_ok(d.first, d.second)) ctl.misuse("bytes outside a block were overwritten");
        for (size_t i = 0; i < d.second; ++i) if ((unsigned char)d.first[i] != DEAD_BYTE) { ctl.misuse("a block was written to after it was released"); break; }
    }
}
Env::~Env() {
    for (auto& d : dead) std::free(d.first - RZ - d.shift);
    for (auto& b : live) std::free(static_cast<char*>(b.first) - RZ - b.second.shift);
}

//---------------------------------------------------------------- world
World::World(Plan const& p, bool twin_, bool limits, bool mems) : twin(twin_) {
    int n = (int)p.get("slots", 1);
    if (n < 1) n = 1;
    if (!twin && limits) {
        if (p.cfg.count("maxsize")) env.max = (size_t)p.get("maxsize");
        if (p.cfg.count("budget")) env.budget = p.get("budget");
    }
    if (!twin) default_env = &env;
    poolbuf.resize((size_t)p.get("pool", 0) + (limits ? 0 : 100000) + 1);
    pool.reset(new urls::basic_static_pool(poolbuf.data(), poolbuf.size() - 1));
    slots.resize((size_t)n);
    for (int i = 0; i < n; ++i) {
        slots[i].mem = mems ? (int)p.get("mem" + std::to_string(i), 0) : 0;
        slots[i].h.reset(make(i, nullptr, 1));
    }
}
World::~World() { slots.clear(); }

Holder* World::make(int i, string_view const* s, int variant) {
    SimAlloc<char> a(env, i);
    int mem = twin ? 0 : slots[i].mem;
    switch (mem) {
    case 1: return s ? new HolderT<urls::url>(0, *s) : new HolderT<urls::url>(0);
    case 2: return s ? new HolderT<PoolUrl>(0, *s, pool->allocator()) : new HolderT<PoolUrl>(0, pool->allocator());
    default:
        if (s) return (variant & 1) || twin ? new HolderT<SimUrl>(0, *s, a) : new HolderT<SimUrl>(0, *s);
        return (variant & 1) || twin ? new HolderT<SimUrl>(0, a) : new HolderT<SimUrl>(0);
    }
}

template<class S, class I> static long position(S s, I it, size_t limit) {
    long n = 0;
    for (auto x = s.begin(); ; ++x, ++n) {
        if (x == it) return n;
        if (x == s.end() || (size_t)n > limit) return -2;
    }
}
// the returned iterator can be read and moved like the one found by counting
template<class S, class I> static char const* walk(S s, I it, long index) {
    auto x = s.begin(); auto const e = s.end(), b = x;
    for (long n = index; n-- > 0 && x != e;) ++x;
    auto y = it; auto x1 = x, y1 = it;
    for (int n = 0; n < 4 && x != e; ++n, ++x, ++y)
        if (y == e || !(x == y) || !same_element((*x).encoded_string(), y->encoded_string())) return "does not read the elements from its position on";
    if (x == e && y != e) return "does not reach the end";
    for (int n = 0; n < 3 && x1 != b; ++n) {
        --x1; --y1;
        if (!(x1 == y1) || !same_element((*x1).encoded_string(), (*y1).encoded_string())) return "does not read the elements before its position";
    }
    return "";
}
template<class S> static auto seek(S s, size_t n) { auto it = s.begin(); auto e = s.end(); while (n-- && it != e) ++it; return it; }
template<class S> static size_t count(S s, size_t limit) { size_t n = 0; for (auto it = s.begin(), e = s.end(); it != e && n <= limit; ++it) ++n; return n; }

Outcome apply_to(urls::url_base& b, Op const& op, Fault const& f) {
    Arg arg(op.a, op.i & 1);
    string_view a = arg;
    size_t limit = b.size() + 2;
    return guarded(f, [&](Outcome& o) {
        urls::url_base* r = &b;
        switch (op.kind) {
        case K::set_url: r = &b.set_encoded_url(a); break;
        case K::set_origin: r = &b.set_encoded_origin(a); break;
        case K::set_scheme: r = &b.set_scheme(a); break;
        case K::set_authority: r = &b.set_encoded_authority(a); break;
        case K::set_userinfo: r = &b.set_encoded_userinfo(a); break;
        case K::set_userinfo_part: r = &b.set_userinfo_part(a); break;
        case K::set_user: r = &b.set_user(a); break;
        case K::set_euser: r = &b.set_encoded_user(a); break;
        case K::set_password: r = &b.set_password(a); break;
        case K::set_epassword: r = &b.set_encoded_password(a); break;
        case K::set_password_part: r = &b.set_password_part(a); break;
        case K::set_host: r = &b.set_host(a); break;
        case K::set_ehost: r = &b.set_encoded_host(a); break;
        case K::set_port: r = &b.set_port(a); break;
        case K::set_port_num: r = &b.set_port((unsigned)op.i); break;
        case K::set_port_part: r = &b.set_port_part(a); break;
        case K::set_path: r = &b.set_encoded_path(a); break;
        case K::set_query: r = &b.set_query(a); break;
        case K::set_equery: r = &b.set_encoded_query(a); break;
        case K::set_query_part: r = &b.set_query_part(a); break;
        case K::set_fragment: r = &b.set_fragment(a); break;
        case K::set_efragment: r = &b.set_encoded_fragment(a); break;
        case K::set_fragment_part: r = &b.set_fragment_part(a); break;
        case K::normalize: r = &b.normalize(); break;
        case K::normalize_scheme: r = &b.normalize_scheme(); break;
        case K::seg_insert: case K::seg_insert_enc: case K::seg_replace: case K::seg_replace_enc:
        case K::seg_erase: case K::seg_erase_range: {
            auto s = b.segments();
            size_t n = count(s, limit);
            bool ins = op.kind == K::seg_insert || op.kind == K::seg_insert_enc;
            if (!ins && n == 0) { o.index = 0; break; }     // nothing there: not performed
            auto it = s.begin();
            size_t i = (size_t)op.i;
            switch (op.kind) {
            case K::seg_insert: it = s.insert(seek(s, i % (n + 1)), a); break;
            case K::seg_insert_enc: it = s.insert_encoded(seek(s, i % (n + 1)), a); break;
            case K::seg_replace: it = s.replace(seek(s, i % n), a); break;
            case K::seg_replace_enc: it = s.replace_encoded(seek(s, i % n), a); break;
            case K::seg_erase: it = s.erase(seek(s, i % n)); break;
            default: {
                size_t x = i % (n + 1), y = x + (size_t)op.j % (n - x + 1);
                it = s.erase(seek(s, x), seek(s, y));
                break;
            }
            }
            o.index = position(b.segments(), it, b.size() + 2);
            if (o.index >= 0) { o.walk = walk(b.segments(), it, o.index); }
            break;
        }
        default: break;
        }
        o.self = r == &b;
    });
}

Outcome World::exec(Op const& op, Fault const& f) {
    ++stats.ops;
    ++stats.op_count[(int)op.kind];
    int u = idx(op.u), j = idx(op.j);
    Slot& su = slots[u];
    Slot& sj = slots[j];
    Outcome o;
    bool same = su.mem == sj.mem;
    switch (op.kind) {
    case K::ctor_default: case K::ctor_str: case K::copy_ctor: case K::move_ctor: {
        Arg arg(op.a, op.i & 1);
        string_view a = arg;
        Holder* h = nullptr;
        o = guarded(f, [&](Outcome&) {
            if (op.kind == K::ctor_default) h = make(u, nullptr, op.i);
            else if (op.kind == K::ctor_str) h = make(u, &a, op.i);
            else if (!same) { a = sj.h->b().encoded_url(); h = make(u, &a, 1); }
            else if (op.kind == K::copy_ctor) h = sj.h->copy();
            else h = sj.h->move();
        });
        if (o.st == St::ok) su.h.reset(h);
        break;
    }
    case K::copy_assign: case K::move_assign:
        o = guarded(f, [&](Outcome&) {
            if (!same) su.h->b().set_encoded_url(sj.h->b().encoded_url());
            else if (op.kind == K::copy_assign) su.h->assign(*sj.h);
            else su.h->massign(*sj.h);
        });
        break;
    default:
        o = apply_to(su.h->b(), op, f);
        break;
    }
    if (o.st == St::rejected) ++stats.rejected;
    if (o.st == St::nomem) {
        ++stats.nomem;
        if (!ctl.hit && !ctl.limited) {
            if (!twin && su.mem == 2) ++stats.fired_pool;
            else if (o.exc == "length_error") ++stats.fired_maxsize;
        }
    }
    return o;
}

//---------------------------------------------------------------- observation
char const* const obs_names[] = {
    "encoded_url()", "size()", "data()", "terminator", "encoded_origin()", "scheme()", "has_authority()", "encoded_authority()", "has_userinfo()", "encoded_userinfo()", "userinfo_part()",
    "encoded_user()", "encoded_password()", "password_part()", "host_type()", "encoded_host_and_port()", "encoded_host()", "port()", "port_part()", "encoded_path()",
    "encoded_query()", "query_part()", "encoded_fragment()", "fragment_part()",
    "segments() forward", "segments() backward", "const segments() forward", "const segments() backward",
    "params() forward", "params() backward", "const params() forward", "const params() backward",
    "user()", "password()", "host()", "query()", "fragment()" };

std::string seq_text(std::vector<std::string> const& v) {
    std::string r = std::to_string(v.size()) + ":";
    for (auto& s : v) { r += std::to_string(s.size()); r += '<'; r += s; r += '>'; }
    return r;
}
std::string par_text(std::vector<std::pair<std::string, std::string>> const& v) {
    std::string r = std::to_string(v.size()) + ":";
    for (auto& s : v) { r += std::to_string(s.first.size()); r += '<'; r += s.first; r += '='; r += s.second; r += '>'; }
    return r;
}
template<class U> static void common(U const& b, Obs& o) {
    o.f[O_text] = str(b.encoded_url());
    o.f[O_size] = std::to_string(b.size());
    o.f[O_data] = b.size() ? std::string(b.data(), b.size()) : std::string();
    o.f[O_origin] = str(b.encoded_origin());
    o.f[O_scheme] = str(b.scheme());
    o.f[O_has_authority] = b.has_authority() ? "1" : "0";
    o.f[O_authority] = str(b.encoded_authority());
    o.f[O_has_userinfo] = b.has_userinfo() ? "1" : "0";
    o.f[O_userinfo] = str(b.encoded_userinfo());
    o.f[O_userinfo_part] = str(b.userinfo_part());
    o.f[O_user] = str(b.encoded_user());
    o.f[O_password] = str(b.encoded_password());
    o.f[O_host_type] = std::to_string((int)b.host_type());
    o.f[O_host_and_port] = str(b.encoded_host_and_port());
    o.f[O_host] = str(b.encoded_host());
    o.f[O_port] = str(b.port());
    o.f[O_port_part] = str(b.port_part());
    o.f[O_path] = str(b.encoded_path());
    o.f[O_query] = str(b.encoded_query());
    o.f[O_query_part] = str(b.query_part());
    o.f[O_fragment] = str(b.encoded_fragment());
    o.f[O_fragment_part] = str(b.fragment_part());
    size_t limit = b.size() + 2;
    o.f[O_csegs] = seg_fwd(b.segments(), limit, false);
    o.f[O_csegs_rev] = seg_rev(b.segments(), limit, true);
    o.f[O_cparams] = par_fwd(b.params(), limit, false);
    o.f[O_cparams_rev] = par_rev(b.params(), limit, true);
    o.f[O_dec_user] = b.user();
    o.f[O_dec_password] = b.password();
    o.f[O_dec_host] = b.host();
    o.f[O_dec_query] = b.query();
    o.f[O_dec_fragment] = b.fragment();
}
Obs observe(urls::url_base& b) {
    Quiet q;
    Obs o;
    common(const_cast<urls::url_base const&>(b), o);
    o.f[O_nul] = b.data()[b.size()] == 0 ? "NUL" : "missing";
    o.f[O_password_part] = str(b.password_part());
    size_t limit = b.size() + 2;
    o.f[O_segs] = seg_fwd(b.segments(), limit, true);
    o.f[O_segs_rev] = seg_rev(b.segments(), limit, false);
    o.f[O_params] = par_fwd(b.params(), limit, true);
    o.f[O_params_rev] = par_rev(b.params(), limit, false);
    return o;
}
Obs observe(urls::url_view const& v) {
    Quiet q;
    Obs o;
    common(v, o);
    o.f[O_segs] = o.f[O_csegs];
    o.f[O_segs_rev] = o.f[O_csegs_rev];
    o.f[O_params] = o.f[O_cparams];
    o.f[O_params_rev] = o.f[O_cparams_rev];
    return o;
}
Obs expected(M const& m) {
    Obs o;
    o.f[O_text] = o.f[O_data] = m.text();
    o.f[O_size] = std::to_string(o.f[O_text].size());
    o.f[O_nul] = "NUL";
    o.f[O_origin] = m.origin();
    o.f[O_scheme] = m.scheme;
    o.f[O_has_authority] = m.auth ? "1" : "0";
    o.f[O_authority] = m.authority();
    o.f[O_has_userinfo] = m.at ? "1" : "0";
    o.f[O_userinfo] = m.user + (m.colon ? ":" + m.pw : "");
    o.f[O_userinfo_part] = m.at ? o.f[O_userinfo] + "@" : "";
    o.f[O_user] = m.user;
    o.f[O_password] = m.pw;
    o.f[O_password_part] = m.colon ? ":" + m.pw : "";
    o.f[O_host_type] = std::to_string((int)ref::host_type(m.host));
    o.f[O_host] = m.host;
    o.f[O_port] = m.port;
    o.f[O_port_part] = m.port_p ? ":" + m.port : "";
    o.f[O_host_and_port] = m.host + o.f[O_port_part];
    o.f[O_path] = m.path;
    o.f[O_query] = m.query;
    o.f[O_query_part] = m.query_p ? "?" + m.query : "";
    o.f[O_fragment] = m.frag;
    o.f[O_fragment_part] = m.frag_p ? "#" + m.frag : "";
    std::vector<std::string> v;
    ref::split_path(m.path, v);
    o.f[O_segs] = o.f[O_segs_rev] = o.f[O_csegs] = o.f[O_csegs_rev] = seq_text(v);
    o.f[O_params] = o.f[O_params_rev] = o.f[O_cparams] = o.f[O_cparams_rev] = par_text(ref::split_query(m));
    o.f[O_dec_user] = ref::pct_decode(m.user);
    o.f[O_dec_password] = ref::pct_decode(m.pw);
    o.f[O_dec_host] = ref::pct_decode(m.host);
    o.f[O_dec_query] = ref::pct_decode(m.query);
    o.f[O_dec_fragment] = ref::pct_decode(m.frag);
    return o;
}
std::string diff(Obs const& got, Obs const& want, uint64_t skip) {
    ++stats.checks;
    for (int i = 0; i < O_COUNT; ++i)
        if (!(skip >> i & 1) && got.f[i] != want.f[i])
            return std::string(obs_names[i]) + " is " + quote(got.f[i]) + ", expected " + quote(want.f[i]) + " (text " + quote(got.f[O_text]) + ")";
    return "";
}
uint64_t hash(Obs const& o) {
    uint64_t h = FNV0;
    for (auto& s : o.f) h = fnv(h, s);
    return h;
}

}

//---------------------------------------------------------------- the global heap
// Library code is on it for decoded strings, exceptions and std::allocator URLs. Requests
// made while the simulator runs library code are counted, can be refused, and are filled.
namespace {
struct alignas(16) Head { uint64_t magic, size; };
constexpr uint64_t PLAIN = 0x506c61696e31ull, TRACKED = 0x547261636b32ull, DEAD = 0x44656164ull;
constexpr size_t TAIL = 16;

void* gnew(size_t n) {
    uint64_t magic = PLAIN;
    if (sim::ctl.armed) {
        sim::Quiet q;
        sim::ctl.trace = sim::ctl.trace * 37 + n;
        if (sim::ctl.fail(true)) sim::ctl.refuse(true);
        magic = TRACKED;
        ++sim::ctl.live_gnew;
    }
    if (n > (size_t(1) << 34)) throw std::bad_alloc();
    Head* h = static_cast<Head*>(std::malloc(sizeof(Head) + n + (SIM_ASAN ? 0 : TAIL)));
    if (!h) throw std::bad_alloc();
    h->magic = magic;
    h->size = n;
    if (magic == TRACKED) {
        std::memset(h + 1, sim::ctl.junk, n);
        if (!SIM_ASAN) std::memset(reinterpret_cast<char*>(h + 1) + n, 0xFB, TAIL);
    }
    return h + 1;
}
void gdelete(void* p, size_t n, bool sized) noexcept {
    if (!p) return;
    Head* h = static_cast<Head*>(p) - 1;
    if (h->magic == TRACKED) {
        sim::Quiet q;
        --sim::ctl.live_gnew;
        if (sized && h->size != n) sim::ctl.misuse("a heap block of " + std::to_string(h->size) + " bytes was released as " + std::to_string(n) + " bytes");
        if (!SIM_ASAN) {
            char* t = static_cast<char*>(p) + h->size;
            for (size_t i = 0; i < TAIL; ++i) if ((unsigned char)t[i] != 0xFB) { sim::ctl.misuse("bytes behind a heap block were overwritten"); break; }
            std::memset(p, 0xDD, h->size);
        }
    } else if (h->magic != PLAIN) {
        sim::ctl.misuse("a heap block was released twice");
        return;
    }
    h->magic = DEAD;
    std::free(h);
}
}
void* operator new(size_t n) { return gnew(n); }
void* operator new[](size_t n) { return gnew(n); }
void operator delete(void* p) noexcept { gdelete(p, 0, false); }
void operator delete[](void* p) noexcept { gdelete(p, 0, false); }
void operator delete(void* p, size_t n) noexcept { gdelete(p, n, true); }
void operator delete[](void* p, size_t n) noexcept { gdelete(p, n, true); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { try { return gnew(n); } catch (...) { return nullptr; } }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { try { return gnew(n); } catch (...) { return nullptr; } }
void operator delete(void* p, std::nothrow_t const&) noexcept { gdelete(p, 0, false); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { gdelete(p, 0, false); }
