// C19: the amount of work and memory. Every call is counted in steps (steps.cpp) and stopped
// as a violation when it exceeds what the length of the texts involved allows.
#include "world.hpp"
#include "reads.hpp"
#include "steps.hpp"
#include <algorithm>
#include <cmath>
#include <cstdio>
namespace sim {
namespace {

// steps allowed per byte of URL and argument; the tree needs 10 at most (clang++; 40 with g++)
constexpr uint64_t PER_BYTE = 300;
constexpr uint64_t FIXED = 64;                 // bytes granted to every call
uint64_t base_limit(size_t n) { return PER_BYTE * (n + FIXED); }
long allowed_requests(size_t n) { return (long)(6 * std::log2((double)n + 2)) + 16; }
size_t allowed_capacity(size_t n) { return 4 * n + 1024; }

struct Ctx {
    Plan const& p;
    uint64_t h = FNV0;
    bool nontrivial = false;
    size_t step = 0;
    void note(uint64_t v) { h = (h ^ v) * 1099511628211ull; }
};
// what one URL has needed so far
struct Need { size_t longest = 0; long requests = 0; };

struct Run {
    Ctx& c;
    World w;
    std::vector<Need> need;
    explicit Run(Ctx& c_) : c(c_), w(c_.p, false), need(w.slots.size()) {}

    std::string where(Op const& op) const { return "step " + std::to_string(c.step) + " " + show(op) + ": "; }
    void begin(Op const& op, char const* what, size_t n) {
        std::snprintf(steps::note, sizeof steps::note, "%s%s on a text of %zu bytes", where(op).c_str(), what, n);
        steps::now = 0;
        steps::limit = base_limit(n);
        steps::deepest = 0;
        steps::base = (char const*)__builtin_frame_address(0);
    }
    void end(char const* kind, char const* group, size_t n) {
        uint64_t s = steps::now;
        steps::limit = 0;
        steps::base = nullptr;
        ++stats.checks;
        if (xstats) { auto& x = stats.probes["max bytes of stack in use"]; x = std::max(x, steps::deepest); }
        c.note(s);
        if (states && states->size() < 400000) states->insert((uint64_t)std::log2((double)s + 1) * 64 + (uint64_t)std::log2((double)n + 1) + fnv(FNV0, kind));
        if (xstats) {
            auto& m = (*xstats)["steps"];
            m += s;
            auto r = (uint64_t)(1000.0 * (double)s / (double)(n + FIXED));
            auto& x = stats.probes[std::string("max steps per 1000 bytes, ") + group];
            x = std::max(x, r);
        }
        if (n > 1000) c.nontrivial = true;
    }
    void memory(Op const& op, int u, Outcome const& o, bool fresh) {
        Need& d = need[(size_t)u];
        urls::url_base& b = w.at(u);
        d.longest = std::max(d.longest, b.size());
        if (w.slots[(size_t)u].mem == 2) return;
        ++stats.checks;
        if (b.capacity() > allowed_capacity(d.longest))
            violate("C19.capacity", where(op) + "the capacity is " + std::to_string(b.capacity()) + " although the longest text so far had " + std::to_string(d.longest) + " bytes");
        if (fresh) { d.requests = 1; return; }
        if (o.st == St::ok && !ctl.hit && !ctl.limited) d.requests += ctl.n_alloc;
        if (d.requests > allowed_requests(d.longest))
            violate("C19.requests", where(op) + std::to_string(d.requests) + " memory requests for a text that reached " + std::to_string(d.longest) + " bytes");
        c.note((uint64_t)d.requests); c.note(b.capacity());
    }
    Outcome modify(Op const& op, Fault const& f) {
        int u = w.idx(op.u), j = w.idx(op.j);
        // a plain argument can grow threefold
        size_t n = w.at(u).size() + 4 * op.a.size() + (is_object(op.kind) ? w.at(j).size() : 0);
        begin(op, kind_names[(int)op.kind], n);
        Outcome o = w.exec(op, f);
        end(kind_names[(int)op.kind], is_object(op.kind) ? "objects" : is_seg(op.kind) ? "segment edits" : "setters", n);
        c.note((uint64_t)o.st);
        bool fresh = is_object(op.kind) && o.st == St::ok;
        if (fresh) {
            need[(size_t)u].longest = std::max(need[(size_t)u].longest, need[(size_t)j].longest);
            if (op.kind == K::move_assign || op.kind == K::move_ctor) need[(size_t)j].longest = need[(size_t)u].longest;
        }
        memory(op, u, o, fresh);
        return o;
    }
    void grow(Op const& op) {
        int u = w.idx(op.u);
        std::string text;                      // of the part
        for (int k = 0; k < op.i && k < 2000; ++k) {
            Op x;
            x.u = u;
            x.retry = 0;
            switch (op.j % 8) {
            case 0: x.kind = K::seg_insert; x.i = op.j & 8 ? k : 1 << 20; x.a = op.a; break;
            case 1: x.kind = K::seg_insert_enc; x.i = 0; x.a = op.a; break;
            case 2: x.kind = K::set_equery; text += (k ? "&" : "") + op.a; break;
            case 3: x.kind = K::set_fragment; text += op.a + "%"; break;
            case 4: x.kind = K::set_user; text += op.a + "x"; break;
            case 5: x.kind = K::set_path; text += "/" + op.a; break;
            case 6: x.kind = K::set_url; text += (k ? "/" : "x:/") + op.a; break;
            default: x.kind = K::set_query; text += op.a + "="; break;
            }
            if (op.j % 8 >= 2) x.a = text;
            if (x.kind == K::seg_insert && x.i == 1 << 20) {     // at the end
                size_t n = 0;
                Quiet q;
                n = w.at(u).segments().size();
                x.i = (int)n;
            }
            Fault f;
            if (op.f.kind != F::none && k % 11 == 5) f = op.f;
            Outcome o = modify(x, f);
            if (o.st == St::nomem) { if (!ctl.hit) break; o = modify(x, Fault{}); }
            if (o.st != St::ok) break;
        }
        ++stats.probes["parts grown step by step"];
    }
    void reads(Op const& op) {
        urls::url_base& b = w.at(op.u);
        std::string text = str(b.encoded_url());
        size_t n = text.size() + op.a.size();
        Arg arg(op.a, op.i & 1);
        string_view key = arg;
        Arg whole(text, false);
        begin(op, "parsing a view", n);
        std::unique_ptr<urls::url_view> v;
        Outcome o = guarded(Fault{}, [&](Outcome&) { urls::url_view x{ string_view(whole) }; Quiet q; v.reset(new urls::url_view(x)); });
        end("parse view", "parsing a view", n);
        for (int k = 0; k < NREADS; ++k) {
            static std::string names[NREADS];
            if (names[k].empty()) names[k] = "read " + std::to_string(k);
            int who = (int)(op.i >> (k % 16) & 3) % 3;
            if (who == 2 && !v) who = 0;
            if (who && k >= NCOMMON) who = 0;
            begin(op, names[k].c_str(), n);
            guarded(op.f, [&](Outcome&) {
                uint64_t r = who == 0 ? one_read_url(b, k, key) : who == 1 ? one_read(const_cast<urls::url_base const&>(b), k, key) : one_read(const_cast<urls::url_view const&>(*v), k, key);
                Quiet q;
                c.note(r);
            });
            end(names[k].c_str(), k >= 22 && k < 26 ? "iteration" : k >= 26 && k < 29 ? "lookup" : "other reads", n);
        }
    }
    void decode(Op const& op) {
        urls::url_base& b = w.at(op.u);
        size_t n = b.size() + op.a.size(), cap = 0;
        Env e;
        SimAlloc<char> a(e, 77);
        bool done = false;
        begin(op, "decoding", n);
        Outcome o = guarded(op.f, [&](Outcome&) { SimString s = decode_call(const_cast<urls::url_base const&>(b), op, a, done); Quiet q; cap = s.capacity(); });
        end("decode", "decoding", n);
        c.note((uint64_t)o.st); c.note(cap);
        if (o.st == St::ok && cap > allowed_capacity(b.size())) violate("C19.capacity", where(op) + "a decoded string has capacity " + std::to_string(cap) + " for a URL of " + std::to_string(b.size()) + " bytes");
        if (o.st == St::ok && ctl.n_alloc > allowed_requests(b.size())) violate("C19.requests", where(op) + std::to_string(ctl.n_alloc) + " memory requests for one decoded string");
    }
    void all() {
        for (auto& op : c.p.ops) {
            ++c.step;
            if (op.kind == K::grow || op.kind == K::read || op.kind == K::decode) { ++stats.ops; ++stats.op_count[(int)op.kind]; }
            if (op.kind == K::grow) grow(op);
            else if (op.kind == K::read) reads(op);
            else if (op.kind == K::decode) decode(op);
            else {
                Outcome o = modify(op, op.f);
                if (o.st == St::nomem && op.retry) { o = modify(op, Fault{}); if (o.st == St::ok) ++stats.retries_ok; }
            }
        }
    }
};

}

void start_pristine() {}
RunResult execute(Plan const& p) {
    RunResult r;
    Ctx c{ p };
    ctl.f = Fault{};
    ctl.err.clear();
    ctl.junk = (unsigned char)p.get("junk", 1);
    ++stats.runs;
    try {
        Run run(c);
        run.all();
    } catch (Violation const& v) {
        r.violated = true;
        r.label = v.label;
        r.what = v.what;
    }
    ctl.armed = false;
    r.trace = c.h;
    r.nontrivial = c.nontrivial;
    return r;
}

}
