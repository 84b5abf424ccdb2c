// One executor per property. Each evaluates only its own property's oracle.
#include "world.hpp"
#include "reads.hpp"
#include <algorithm>
#include <numeric>
#include <functional>
#include <list>
#include <sys/socket.h>
#include <sys/wait.h>
#include <unistd.h>
namespace sim {
namespace {

struct Ctx {
    Plan const& p;
    uint64_t h = FNV0;
    bool nontrivial = false;
    size_t step = 0;
    explicit Ctx(Plan const& p_) : p(p_) {}
    std::string where(Op const& op) const { return "step " + std::to_string(step) + " " + show(op) + ": "; }
    void note(std::string const& s) { h = fnv(h, s); }
    void note(uint64_t v) { h = (h ^ v) * 1099511628211ull; }
    void state(Obs const& o, uint64_t extra = 0) {
        note(hash(o));
        if (states && states->size() < 400000) states->insert(hash(o) ^ extra * 0x9E3779B97F4A7C15ull);
    }
    void outcome(Outcome const& o) { note((uint64_t)o.st); note(o.exc); note((uint64_t)o.index); }
};

std::vector<Obs> observe_all(World& w) {
    std::vector<Obs> v;
    for (auto& s : w.slots) v.push_back(observe(s.h->b()));
    return v;
}
void expect_all(Ctx& c, Op const& op, char const* label, char const* why, World& w, std::vector<Obs> const& want, long except = -1) {
    for (size_t i = 0; i < w.slots.size(); ++i) {
        if ((long)i == except) continue;
        auto d = diff(observe(w.slots[i].h->b()), want[i]);
        if (!d.empty()) violate(label, c.where(op) + why + ": url" + std::to_string(i) + ": " + d);
    }
}
// where the text lies, and how much room there is
using Places = std::vector<std::pair<char const*, size_t>>;
Places places(World& w) {
    Places v;
    for (auto& s : w.slots) v.push_back({ s.h->b().data(), s.h->b().capacity() });
    return v;
}
void same_places(Ctx& c, Op const& op, char const* label, char const* why, World& w, Places const& v) {
    for (size_t i = 0; i < v.size(); ++i) {
        auto& b = w.slots[i].h->b();
        if (b.capacity() != v[i].second) violate(label, c.where(op) + why + ": url" + std::to_string(i) + ": capacity() is " + std::to_string(b.capacity()) + ", expected " + std::to_string(v[i].second));
        if (v[i].second && b.data() != v[i].first) violate(label, c.where(op) + why + ": url" + std::to_string(i) + ": data() moved");
    }
}
// views the caller took earlier
struct Held {
    std::vector<std::pair<string_view, std::string>> v;
    void take(urls::url_base& b) {
        auto add = [&](string_view s) { v.push_back({ s, str(s) }); };
        add(b.encoded_url()); add(b.scheme()); add(b.encoded_authority()); add(b.encoded_user()); add(b.encoded_password());
        add(b.encoded_host()); add(b.port()); add(b.encoded_path()); add(b.query_part()); add(b.fragment_part());
        size_t n = 0;
        for (auto s : const_cast<urls::url_base const&>(b).segments()) { if (++n > 6) break; add(s.encoded_string()); }
        n = 0;
        for (auto s : const_cast<urls::url_base const&>(b).params()) { if (++n > 6) break; add(s.encoded_key()); add(s.encoded_value()); }
    }
    std::string check() const {
        for (auto& x : v) if (str(x.first) != x.second) return "a view taken earlier now reads " + quote(str(x.first)) + ", before the failed call it read " + quote(x.second);
        return "";
    }
};
std::string slot_text(World& w, int u) { return str(w.at(u).encoded_url()); }

//---------------------------------------------------------------- a process which never made the failed calls
// A process forked before the library was first used waits for requests: a plan, and for every step
// whether to make the call ('x'), to leave it out ('s'), or to make it in a further process of its own ('t').
// It answers with one line for every step: the outcome, and for 'x' the state that followed.
int zygote = -1;

bool write_all(int fd, std::string const& s) {
    for (size_t n = 0; n < s.size();) { ssize_t k = write(fd, s.data() + n, s.size() - n); if (k <= 0) return false; n += (size_t)k; }
    return true;
}
std::string read_all(int fd) {
    std::string s;
    char b[4096];
    for (ssize_t k; (k = read(fd, b, sizeof b)) > 0;) s.append(b, (size_t)k);
    return s;
}
bool send_msg(int fd, std::string const& s) { uint64_t n = s.size(); return write_all(fd, std::string((char*)&n, 8) + s); }
bool recv_msg(int fd, std::string& s) {
    uint64_t n = 0;
    for (size_t k = 0; k < 8;) { ssize_t x = read(fd, (char*)&n + k, 8 - k); if (x <= 0) return false; k += (size_t)x; }
    s.assign(n, 0);
    for (size_t k = 0; k < n;) { ssize_t x = read(fd, &s[k], n - k); if (x <= 0) return false; k += (size_t)x; }
    return true;
}
template<class Fn>
std::string in_child(Fn fn) {                // what the child says, and how it ended
    int fd[2];
    if (pipe(fd)) return "";
    pid_t pid = fork();
    if (pid == 0) { close(fd[0]); alarm(300); fn(fd[1]); _exit(0); }
    close(fd[1]);
    std::string s = read_all(fd[0]);
    close(fd[0]);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0) {}
    if (!WIFEXITED(st) || WEXITSTATUS(st)) s += "died\n";
    return s;
}
std::string outcome_text(Outcome const& o) {
    return (o.st == St::ok ? "ok" : o.st == St::rejected ? "rejected with " + o.exc : "failed with " + o.exc) + (o.index >= 0 ? " (position " + std::to_string(o.index) + ")" : "");
}
std::string state_text(World& w) {
    uint64_t h = FNV0;
    for (auto& o : observe_all(w)) h = (h ^ hash(o)) * 1099511628211ull;
    std::string s = " state " + std::to_string(h);
    for (size_t i = 0; i < w.slots.size(); ++i) s += " " + quote(slot_text(w, (int)i));
    return s;
}
void serve(std::string const& msg, int out) {
    size_t cut = msg.find('\n');
    std::string acts = msg.substr(0, cut);
    Plan p = from_text(msg.substr(cut + 1));
    ctl.junk = (unsigned char)p.get("junk", 1);
    World t(p, true);
    for (size_t i = 0; i < p.ops.size() && i < acts.size(); ++i) {
        std::string line;
        if (acts[i] == 'x') { Outcome o = t.exec(p.ops[i], Fault{}); line = outcome_text(o) + state_text(t) + "\n"; }
        else if (acts[i] == 't') line = in_child([&](int fd) { Outcome o = t.exec(p.ops[i], Fault{}); write_all(fd, outcome_text(o) + "\n"); });
        else line = "\n";
        if (!write_all(out, line)) return;
    }
}
struct Pristine {
    Ctx& c;
    bool on;
    std::string acts, label, why;
    std::vector<std::string> lines;
    Pristine(Ctx& c_, std::string const& l, std::string const& w) : c(c_), on(zygote >= 0 && c.p.get("pristine")), label(l), why(w) {}
    void step(char act, Outcome const& o, World& t) {
        if (!on) return;
        acts += act;
        lines.push_back(act == 's' ? "" : act == 't' ? outcome_text(o) : outcome_text(o) + state_text(t));
    }
    void compare() {
        if (!on) return;
        std::string got;
        if (!send_msg(zygote, acts + "\n" + to_text(c.p)) || !recv_msg(zygote, got)) { std::fprintf(stderr, "no answer from the other process\n"); _exit(3); }
        ++stats.probes["compared with a process which never made the failed calls"];
        size_t at = 0;
        for (size_t i = 0; i < lines.size(); ++i) {
            size_t e = got.find('\n', at);
            std::string x = e == std::string::npos ? got.substr(at) : got.substr(at, e - at);
            at = e == std::string::npos ? got.size() : e + 1;
            if (x != lines[i]) {
                c.step = i + 1;
                violate(label.c_str(), c.where(c.p.ops[i]) + lines[i] + "; in a process in which " + why + " calls were never made: " + x);
            }
        }
    }
};

//---------------------------------------------------------------- C01
void run_c01(Ctx& c) {
    World w(c.p, false), t(c.p, true);
    Pristine pristine(c, "C01.later", "the failed");
    for (auto& op : c.p.ops) {
        ++c.step;
        auto before = observe_all(w);
        auto where = places(w);
        Held held;
        for (size_t i = 0; i < w.slots.size(); ++i) held.take(w.slots[i].h->b());
        Outcome o = w.exec(op, op.f);
        c.outcome(o);
        for (int attempt = 0; o.st == St::nomem; ++attempt) {
            c.nontrivial = true;
            expect_all(c, op, "C01.changed", "the call ran out of memory and changed something", w, before);
            same_places(c, op, "C01.changed", "the call ran out of memory and changed something", w, where);
            auto d = held.check();
            if (!d.empty()) violate("C01.views", c.where(op) + d);
            if (attempt || !op.retry) break;
            o = w.exec(op, Fault{});
            c.outcome(o);
            if (o.st == St::ok) ++stats.retries_ok;
        }
        if (o.st != St::nomem) {
            Outcome x = t.exec(op, Fault{});
            if (x.st != o.st || x.exc != o.exc || x.index != o.index)
                violate("C01.later", c.where(op) + "outcome differs from a run in which the failed calls were never made: " + o.exc + "/" + std::to_string(o.index) + " instead of " + x.exc + "/" + std::to_string(x.index));
        }
        auto want = observe_all(t);
        expect_all(c, op, "C01.later", "state differs from a run in which the failed calls were never made", w, want);
        for (auto& o2 : want) c.state(o2);
        pristine.step(o.st == St::nomem ? 's' : 'x', o, w);
    }
    pristine.compare();
}

//---------------------------------------------------------------- C02
void run_c02(Ctx& c) {
    World w(c.p, false, false), t(c.p, true);
    Pristine pristine(c, "C02.later", "the other rejected");
    for (auto& op : c.p.ops) {
        ++c.step;
        auto before = observe_all(w);
        auto where = places(w);
        // faults are only for calls which report an error: would this one?
        Fault f;
        if (op.f.kind != F::none) {
            Outcome q;
            if (op.kind == K::ctor_str) q = guarded(Fault{}, [&](Outcome&) { urls::url x{ string_view(op.a) }; });
            else if (!is_object(op.kind)) {
                q.st = St::ok;
                try { urls::url x{ string_view(slot_text(w, op.u)) }; q = apply_to(x, op, Fault{}); } catch (std::exception const&) { q.st = St::ok; }
            }
            if (q.st == St::rejected) f = op.f;
        }
        Outcome o = w.exec(op, f);
        if (o.st == St::nomem) {
            // the report itself failed, so this is still a rejected call
            expect_all(c, op, "C02.changed", "the call was rejected, ran out of memory reporting it, and changed something", w, before);
            same_places(c, op, "C02.changed", "the call was rejected, ran out of memory reporting it, and changed something", w, where);
            c.nontrivial = true;
            o = w.exec(op, Fault{});
        }
        c.outcome(o);
        if (o.st == St::rejected) {
            c.nontrivial = true;
            expect_all(c, op, "C02.changed", "the call was rejected and changed something", w, before);
            same_places(c, op, "C02.changed", "the call was rejected and changed something", w, where);
        } else if (o.st == St::ok) {
            Outcome x = t.exec(op, Fault{});
            if (x.st != St::ok || x.index != o.index)
                violate("C02.later", c.where(op) + "outcome differs from a run in which the rejected calls were never made");
        }
        auto want = observe_all(t);
        expect_all(c, op, "C02.later", "state differs from a run in which the rejected calls were never made", w, want);
        for (auto& o2 : want) c.state(o2);
        pristine.step(o.st == St::ok ? 'x' : o.st == St::rejected ? 't' : 's', o, w);
    }
    pristine.compare();
}

//---------------------------------------------------------------- C03
void check_fresh(Ctx& c, Op const& op, urls::url_base& b, char const* label) {
    Obs o = observe(b);
    std::string text = o.f[O_text];
    auto m = ref::parse(text);
    if (!m) violate(std::string(label) + ".invalid", c.where(op) + "the text is not a URI-reference: " + quote(text));
    auto dm = diff(o, expected(*m));
    if (!dm.empty()) violate(std::string(label) + ".parts", c.where(op) + "the URL disagrees with the grammar: " + dm);
    try {
        urls::url_view v{ string_view(text) };
        auto d = diff(o, observe(v), VIEW_SKIP);
        if (!d.empty()) violate(std::string(label) + ".view", c.where(op) + "the URL disagrees with a view parsed from its text: " + d);
        urls::url f{ string_view(text) };
        d = diff(o, observe(f));
        if (!d.empty()) violate(std::string(label) + ".fresh", c.where(op) + "the URL disagrees with a URL parsed from its text: " + d);
    } catch (std::exception const& e) {
        violate(std::string(label) + ".reparse", c.where(op) + "the text is refused by a fresh parse: " + quote(text));
    }
    c.state(o);
}
void run_c03(Ctx& c) {
    World w(c.p, false);
    for (auto& op : c.p.ops) {
        ++c.step;
        Outcome o = w.exec(op, op.f);
        c.outcome(o);
        if (o.st == St::nomem && op.retry) { check_fresh(c, op, w.at(op.u), "C03"); o = w.exec(op, Fault{}); }
        c.nontrivial |= o.st == St::ok && c.step > 1;
        for (auto& s : w.slots) check_fresh(c, op, s.h->b(), "C03");
    }
}

//---------------------------------------------------------------- C04
bool resync(World& w, int u, M& m) {
    auto p = ref::parse(slot_text(w, u));
    if (!p) return false;
    m = *p;
    return true;
}
void run_c04(Ctx& c) {
    World w(c.p, false);
    M m;
    for (auto& op : c.p.ops) {
        ++c.step;
        auto r = ref::apply(m, op);
        Outcome o = w.exec(op, op.f);
        if (o.st == St::nomem && ctl.hit) {
            if (!resync(w, op.u, m)) return;          // someone else's property
            r = ref::apply(m, op);
            o = w.exec(op, Fault{});
        }
        c.outcome(o);
        if (is_seg(op.kind) || is_object(op.kind) || r.v == ref::unknown) { if (!resync(w, op.u, m)) return; continue; }
        c.nontrivial |= r.v == ref::accept && c.step > 1;
        if (r.v == ref::accept) {
            if (o.st != St::ok) violate("C04.refused", c.where(op) + "a documented argument was refused (" + o.exc + ") for " + quote(m.text()));
            Obs got = observe(w.at(op.u)), want = expected(r.m);
            auto d = diff(got, want, SEQ_BITS | DEC_BITS);
            if (!d.empty()) violate("C04.effect", c.where(op) + "on " + quote(m.text()) + ": " + d);
            if (!o.self) violate("C04.self", c.where(op) + "did not return the URL itself");
            m = r.m;
            c.state(got, (uint64_t)op.kind);
        } else {
            if (o.st == St::ok) violate("C04.accepted", c.where(op) + "an argument the documentation excludes was accepted for " + quote(m.text()) + " giving " + quote(slot_text(w, op.u)));
            if (o.st == St::nomem) violate("C04.refused", c.where(op) + "failed for memory although none was short");
            if (!resync(w, op.u, m)) return;
        }
    }
}

//---------------------------------------------------------------- C05
void check_segments(Ctx& c, Op const& op, Obs const& o) {
    std::vector<std::string> v;
    ref::split_path(o.f[O_path], v);
    auto want = seq_text(v);
    for (int f : { O_segs, O_segs_rev, O_csegs, O_csegs_rev })
        if (o.f[f] != want) violate("C05.agree", c.where(op) + obs_names[f] + " is " + quote(o.f[f]) + ", the path " + quote(o.f[O_path]) + " has " + quote(want));
    ++stats.checks;
}
// sequence objects the caller keeps while the URL changes
struct Kept {
    struct One { Holder* h; urls::url_base::segments_type s; urls::url_base::params_type p; };
    std::vector<std::unique_ptr<One>> v;
    void take(World& w) {
        v.resize(w.slots.size());
        for (size_t i = 0; i < v.size(); ++i) {
            Holder* h = w.slots[i].h.get();
            if (!v[i] || v[i]->h != h) v[i].reset(new One{ h, h->b().segments(), h->b().params() });
        }
    }
    One* get(World& w, int u) {
        auto i = (size_t)w.idx(u);
        return v[i]->h == w.slots[i].h.get() ? v[i].get() : nullptr;
    }
};
void run_c05(Ctx& c) {
    World w(c.p, false);
    M m;
    Kept kept;
    constexpr uint64_t path_bits = bit(O_text) | bit(O_size) | bit(O_data) | bit(O_path) | SEQ_BITS | DEC_BITS;
    constexpr uint64_t par_bits = bit(O_params) | bit(O_params_rev) | bit(O_cparams) | bit(O_cparams_rev);
    for (auto& op : c.p.ops) {
        ++c.step;
        Obs before = observe(w.at(op.u));
        if (!resync(w, op.u, m)) return;
        kept.take(w);
        auto r = ref::apply(m, op);
        Outcome o = w.exec(op, op.f);
        if (o.st == St::nomem && ctl.hit) {
            Obs failed = observe(w.at(op.u));
            check_segments(c, op, failed);
            if (is_seg(op.kind)) { auto d = diff(failed, before); if (!d.empty()) violate("C05.failed", c.where(op) + "the edit ran out of memory and yet changed something: " + d); }
            if (!resync(w, op.u, m)) return;
            before = failed;
            r = ref::apply(m, op);
            o = w.exec(op, Fault{});
        }
        c.outcome(o);
        Obs got = observe(w.at(op.u));
        check_segments(c, op, got);
        if (w.slots.size() > 1 && is_object(op.kind)) check_segments(c, op, observe(w.at(op.j)));
        c.state(got, (uint64_t)op.kind);
        if (auto k = kept.get(w, op.u)) {
            std::string a = seg_fwd(k->s, got.f[O_path].size() + 1, op.i & 1), b = seg_rev(k->s, got.f[O_path].size() + 1, op.i & 1);
            if (a != got.f[O_segs] || b != got.f[O_segs]) violate("C05.kept", c.where(op) + "a segments() object obtained before has " + quote(a) + " / " + quote(b) + ", the path " + quote(got.f[O_path]) + " has " + quote(got.f[O_segs]));
        }
        if (!is_seg(op.kind)) { if (!resync(w, op.u, m)) return; continue; }
        if (r.v == ref::accept) {
            c.nontrivial = true;
            if (o.st != St::ok) violate("C05.refused", c.where(op) + "refused (" + o.exc + ") on " + quote(m.text()));
            Obs want = expected(r.m);
            if (got.f[O_path] != r.m.path || got.f[O_segs] != want.f[O_segs])
                violate("C05.sequence", c.where(op) + "on " + quote(m.text()) + ": the segments are " + quote(got.f[O_segs]) + ", expected " + quote(want.f[O_segs]));
            if (o.index != r.index)
                violate("C05.iterator", c.where(op) + "on " + quote(m.text()) + ": the returned iterator is at " + std::to_string(o.index) + ", expected " + std::to_string(r.index));
            if (*o.walk) violate("C05.iterator", c.where(op) + "on " + quote(m.text()) + ": the returned iterator " + o.walk);
            auto d = diff(got, before, path_bits & ~par_bits & ~DEC_BITS);
            if (!d.empty()) violate("C05.outside", c.where(op) + "on " + quote(m.text()) + " something outside the path changed: " + d);
            m = r.m;
        } else {
            if (o.st == St::ok) violate("C05.accepted", c.where(op) + "on " + quote(m.text()) + " was accepted giving " + quote(got.f[O_text]));
            auto d = diff(got, before);
            if (!d.empty()) violate("C05.failed", c.where(op) + "the edit was refused and yet changed something: " + d);
            if (!resync(w, op.u, m)) return;
        }
    }
}

//---------------------------------------------------------------- C06
template<class P>
void lookups(Ctx& c, Op const& op, P params, std::vector<std::pair<std::string, std::string>> const& items, char const* who, Fault const& f) {
    std::string key = op.a;
    if (op.j % 4 == 1 && !items.empty()) {          // a key which is there, or nearly
        key = ref::pct_decode(items[(size_t)op.j / 4 % items.size()].first);
        switch (op.j / 2 % 8) {
        case 0: if (!key.empty()) key.pop_back(); break;
        case 1: key += op.a.empty() ? '%' : op.a[0]; break;
        case 2: if (!key.empty()) key[(size_t)op.i % key.size()] ^= (char)(1 << op.i % 8); break;
        }
    }
    Arg arg(key, op.i & 1);
    string_view k = arg;
    if (op.i / 2 % 4 == 1 && !items.empty()) {      // a piece of the very text which is searched
        auto it = params.begin();
        for (size_t i = (size_t)op.j / 4 % items.size(); i; --i) ++it;
        string_view own = (*it).encoded_key();
        char const* last = own.data() + own.size();
        for (auto x = params.begin(); x != params.end(); ++x)
            for (auto e : { (*x).encoded_key(), (*x).encoded_value() }) if (!e.empty()) last = std::max(last, e.data() + e.size());
        size_t const room = (size_t)(last - own.data());
        size_t const lens[] = { own.size(), own.size() / 2, own.size() - !own.empty(), own.size() + 1, own.size() + 2, room, room / 2, own.size() / 3 };
        k = string_view(own.data(), std::min(room, lens[op.i / 8 % 8]));
        if (op.j & 2 && !k.empty()) k.remove_prefix(1);
        key.assign(k.data(), k.size());
    }
    long first = -1, n = 0;
    for (size_t i = 0; i < items.size(); ++i) if (ref::pct_decode(items[i].first) == key) { if (first < 0) first = (long)i; ++n; }
    auto bad = [&](char const* call, std::string const& got, std::string const& want) {
        violate(std::string("C06.") + call, c.where(op) + who + " params()." + call + "(" + quote(key) + ") gave " + got + ", expected " + want);
    };
    ++stats.checks;
    bool b = false; size_t cnt = 0; long pos = -1;
    Outcome o = guarded(Fault{}, [&](Outcome&) { b = params.contains(k); cnt = params.count(k); });
    if (b != (n > 0)) bad("contains", b ? "true" : "false", n ? "true" : "false");
    if ((long)cnt != n) bad("count", std::to_string(cnt), std::to_string(n));
    auto it = params.find(k);
    pos = 0;
    for (auto x = params.begin(); x != it; ++x) { if (x == params.end() || pos > (long)items.size()) { pos = -2; break; } ++pos; }
    if (pos != (first < 0 ? (long)items.size() : first)) bad("find", "position " + std::to_string(pos), "position " + std::to_string(first < 0 ? (long)items.size() : first));
    c.note((uint64_t)pos);
    std::string want = first < 0 ? "" : ref::pct_decode(items[(size_t)first].second);
    // at and operator[], possibly without memory
    for (int round = 0; round < 2; ++round) {
        Fault ff = round ? Fault{} : f;
        std::string got;
        Outcome x = guarded(ff, [&](Outcome&) { auto s = params.at(k); got.swap(s); });
        if (x.st == St::nomem && ctl.hit) c.nontrivial = true;
        else if (first < 0) { if (x.st != St::rejected || x.exc != "out_of_range") bad("at", x.st == St::ok ? quote(got) : x.exc, "std::out_of_range"); }
        else if (x.st != St::ok || got != want) bad("at", x.st == St::ok ? quote(got) : x.exc, quote(want));
        std::string g2;
        Outcome y = guarded(ff, [&](Outcome&) { auto s = params[k]; g2.swap(s); });
        if (y.st == St::nomem && ctl.hit) c.nontrivial = true;
        else if (y.st != St::ok || g2 != want) bad("operator[]", y.st == St::ok ? quote(g2) : y.exc, quote(want));
        if (f.kind == F::none) break;
    }
    if (n) c.nontrivial = true;
}
void run_c06(Ctx& c) {
    World w(c.p, false);
    Kept kept;
    for (auto& op : c.p.ops) {
        ++c.step;
        kept.take(w);
        if (op.kind != K::lookup) {
            Outcome o = w.exec(op, op.f);
            if (o.st == St::nomem) o = w.exec(op, Fault{});
            c.outcome(o);
        } else { ++stats.ops; ++stats.op_count[(int)op.kind]; }
        urls::url_base& b = w.at(op.u);
        Obs o = observe(b);
        M m;
        m.query_p = !o.f[O_query_part].empty();
        if (m.query_p) m.query = o.f[O_query_part].substr(1);
        auto items = ref::split_query(m);
        auto want = par_text(items);
        ++stats.checks;
        for (int f : { O_params, O_params_rev, O_cparams, O_cparams_rev })
            if (o.f[f] != want) violate("C06.agree", c.where(op) + obs_names[f] + " is " + quote(o.f[f]) + ", the query " + quote(o.f[O_query_part]) + " has " + quote(want));
        auto k = kept.get(w, op.u);
        if (k) {
            std::string x = par_fwd(k->p, o.f[O_query_part].size() + 1, op.i & 1), y = par_rev(k->p, o.f[O_query_part].size() + 1, op.i & 1);
            if (x != want || y != want) violate("C06.kept", c.where(op) + "a params() object obtained before has " + quote(x) + " / " + quote(y) + ", the query " + quote(o.f[O_query_part]) + " has " + quote(want));
        }
        std::string text = o.f[O_text];
        std::unique_ptr<urls::url_view> v;
        try { v.reset(new urls::url_view{ string_view(text) }); } catch (std::exception const&) {}
        if (v) {
            Obs ov = observe(*v);
            for (int f : { O_cparams, O_cparams_rev })
                if (ov.f[f] != want) violate("C06.view", c.where(op) + "of a view: " + obs_names[f] + " is " + quote(ov.f[f]) + ", the query " + quote(o.f[O_query_part]) + " has " + quote(want));
        }
        c.state(o, op.kind == K::lookup ? fnv(FNV0, op.a) : 0);
        if (op.kind == K::lookup) {
            lookups(c, op, b.params(), items, "", op.f);
            if (k) lookups(c, op, k->p, items, "kept", op.f);
            lookups(c, op, const_cast<urls::url_base const&>(b).params(), items, "const", op.f);
            if (v) lookups(c, op, v->params(), items, "view", op.f);
            auto d = diff(observe(b), o);
            if (!d.empty()) violate("C06.changed", c.where(op) + "a lookup changed something: " + d);
        }
    }
}

//---------------------------------------------------------------- C07
// what the call should return, computed from the encoded observers
bool decode_want(Obs const& o, Op const& op, std::string& want) {
    switch (op.i % 10) {
    case 0: want = ref::pct_decode(o.f[O_user]); return true;
    case 1: want = ref::pct_decode(o.f[O_password]); return true;
    case 2: want = ref::pct_decode(o.f[O_host]); return true;
    case 3: want = ref::pct_decode(o.f[O_query]); return true;
    case 4: want = ref::pct_decode(o.f[O_fragment]); return true;
    case 5: {
        std::vector<std::string> v;
        ref::split_path(o.f[O_path], v);
        if (v.empty()) return false;
        want = ref::pct_decode(v[(size_t)op.j % v.size()]);
        return true;
    }
    default: {
        M m;
        m.query_p = !o.f[O_query_part].empty();
        if (m.query_p) m.query = o.f[O_query_part].substr(1);
        auto v = ref::split_query(m);
        if (op.i % 10 >= 8) {
            for (auto& x : v) if (ref::pct_decode(x.first) == op.a) { want = ref::pct_decode(x.second); return true; }
            return false;
        }
        if (v.empty()) return false;
        auto& x = v[(size_t)op.j % v.size()];
        want = ref::pct_decode(op.i % 10 == 6 ? x.first : x.second);
        return true;
    }
    }
}
template<class U>
void decode_check(Ctx& c, Op const& op, U& u, Obs const& o, char const* who) {
    std::string want;
    bool have = decode_want(o, op, want);
    bool missing_at = !have && op.i % 10 >= 8;
    for (int round = 0; round < 2; ++round) {
        Fault f = round ? Fault{} : op.f;
        Env e;                                    // memory of the caller's allocator
        SimAlloc<char> a(e, 77);
        std::string got;
        bool done = false, right_alloc = true, right_place = true;
        Outcome x = guarded(f, [&](Outcome&) {
            SimString s = decode_call(u, op, a, done);
            Quiet q;
            right_alloc = s.get_allocator() == a;
            got.assign(s.data(), s.size());
            if (s.size() > 15) {
                right_place = false;
                for (auto& b : e.live) if (s.data() >= (char*)b.first && s.data() + s.size() < (char*)b.first + b.second.n) right_place = true;
            }
        });
        bool short_of = ctl.hit > 0;
        ++stats.checks;
        auto tag = c.where(op) + who + ": ";
        if (!e.live.empty()) violate("C07.leak", tag + "memory of the caller's allocator was not returned");
        if (x.st == St::ok && done) {
            if (!have) violate("C07.value", tag + "returned " + quote(got) + " where there is nothing to return");
            if (got != want) violate("C07.value", tag + "returned " + quote(got) + ", the part decodes to " + quote(want));
            if (!right_alloc) violate("C07.allocator", tag + "the string does not use the allocator passed");
            if (!right_place) violate("C07.allocator", tag + "the characters are not in memory of the allocator passed");
            c.note(got);
        } else if (x.st == St::nomem) {
            if (!short_of) violate("C07.spurious", tag + "failed for memory although none was short");
            c.nontrivial = true;
        } else if (x.st == St::rejected && !missing_at) violate("C07.refused", tag + "threw " + x.exc);
        else if (x.st == St::ok && !done && have) violate("C07.value", tag + "the element to decode is missing");
        if (op.f.kind == F::none) break;
    }
    // the std::string form, on the global heap
    for (int round = 0; round < 2; ++round) {
        Fault f = round ? Fault{} : op.f;
        std::string got;
        bool done = false;
        long live = ctl.live_gnew;
        auto body = [&](Outcome&) {
            if ((op.i % 10 == 6 || op.i % 10 == 7) && op.j & 1) {      // the conversion to a pair of strings
                auto s = u.params();
                size_t n = s.size();
                if (n) {
                    auto it = s.begin();
                    for (size_t k = (size_t)op.j % n; k--;) ++it;
                    std::pair<std::string const, std::string> kv = *it;
                    Quiet q;
                    got = op.i % 10 == 6 ? kv.first : kv.second;
                    done = true;
                }
            }
            else if (op.i % 10 == 9) { auto s = u.params()[string_view(op.a.data(), op.a.size())]; Quiet q; got = s; done = true; }
            else { auto s = decode_call(u, op, std::allocator<char>(), done); Quiet q; got = s; }
        };
        Outcome x = guarded(f, body);
        bool short_of = ctl.hit > 0;
        auto tag = c.where(op) + who + " (std::string): ";
        // what the first call of all keeps for itself is not lost: a leak happens every time
        for (int n = 0; n < 3 && ctl.live_gnew != live; ++n) {
            live = ctl.live_gnew;
            x = guarded(f, body);
            short_of = ctl.hit > 0;
        }
        if (ctl.live_gnew != live) violate("C07.leak", tag + "heap memory was not returned");
        if (x.st == St::ok && done) {
            std::string ww = op.i % 10 == 9 && !have ? "" : want;
            if (got != ww) violate("C07.value", tag + "returned " + quote(got) + ", the part decodes to " + quote(ww));
        } else if (x.st == St::nomem) {
            if (!short_of) violate("C07.spurious", tag + "failed for memory although none was short");
            c.nontrivial = true;
        } else if (x.st == St::rejected && !missing_at) violate("C07.refused", tag + "threw " + x.exc);
        if (op.f.kind == F::none) break;
    }
    if (have && want.size()) c.nontrivial = true;
}
// a text as long, which decodes to more or to fewer characters
std::string as_long(std::string s, size_t from) {
    auto hexd = [](char c) { return (c >= '0' && c <= '9') || ((c | 32) >= 'a' && (c | 32) <= 'f'); };
    auto letter = [](char c) { return (c | 32) >= 'a' && (c | 32) <= 'z'; };
    auto one = [&](size_t i) {
        if (i + 2 >= s.size()) return false;
        if (s[i] == '%' && hexd(s[i + 1]) && hexd(s[i + 2])) { s[i] = 'q'; return true; }
        for (size_t k = i; k < i + 3; ++k) if (!letter(s[k]) || (k > 0 && s[k - 1] == '%') || (k > 1 && s[k - 2] == '%')) return false;
        s[i] = '%'; s[i + 1] = '6'; s[i + 2] = 'b';
        return true;
    };
    for (size_t i = 0; i < s.size(); ++i) if (one((i + from) % s.size())) break;
    return s;
}
// the part changes, and the next read is the same again
void decode_again(Ctx& c, Op const& op, World& w) {
    static K const with[] = { K::set_euser, K::set_epassword, K::set_ehost, K::set_equery, K::set_efragment, K::set_path, K::set_equery, K::set_equery, K::set_equery, K::set_equery };
    static int const part[] = { O_user, O_password, O_host, O_query, O_fragment, O_path, O_query, O_query, O_query, O_query };
    urls::url_base& b = w.at(op.u);
    Op set;
    set.u = op.u;
    set.kind = with[op.i % 10];
    std::string text = observe(b).f[part[op.i % 10]];
    set.a = as_long(text, (size_t)op.j * 5);
    if (set.a == text) return;
    std::string got, want;
    bool done = false;
    auto read = [&] { Env e; SimAlloc<char> a(e, 77); done = false; return guarded(Fault{}, [&](Outcome&) { SimString s = decode_call(b, op, a, done); Quiet q; got.assign(s.data(), s.size()); }); };
    read();
    if (w.exec(set, Fault{}).st != St::ok) return;
    Outcome x = read();
    Obs o = observe(b);
    bool have = decode_want(o, op, want);
    ++stats.checks;
    auto tag = c.where(op) + "then " + show(set) + " and the same again: ";
    if (x.st == St::ok && done && (!have || got != want)) violate("C07.value", tag + "returned " + quote(got) + ", the part decodes to " + quote(want));
    if (x.st == St::nomem) violate("C07.spurious", tag + "failed for memory although none was short");
    ++stats.probes["read twice with a change of the part in between"];
}
void run_c07(Ctx& c) {
    World w(c.p, false);
    for (auto& op : c.p.ops) {
        ++c.step;
        if (op.kind != K::decode) {
            Outcome o = w.exec(op, op.f);
            if (o.st == St::nomem) o = w.exec(op, Fault{});
            c.outcome(o);
            continue;
        }
        ++stats.ops; ++stats.op_count[(int)op.kind];
        urls::url_base& b = w.at(op.u);
        Obs o = observe(b);
        c.state(o, (uint64_t)(op.i % 10) + 1);
        decode_check(c, op, b, o, "url");
        decode_check(c, op, const_cast<urls::url_base const&>(b), o, "const url");
        std::string text = o.f[O_text];
        std::unique_ptr<urls::url_view> v;
        try { v.reset(new urls::url_view{ string_view(text) }); } catch (std::exception const&) {}
        if (v) { Obs ov = observe(*v); decode_check(c, op, const_cast<urls::url_view const&>(*v), ov, "view"); }
        auto d = diff(observe(b), o);
        if (!d.empty()) violate("C07.changed", c.where(op) + "a decoding read changed something: " + d);
        if (op.retry) decode_again(c, op, w);
    }
}

//---------------------------------------------------------------- C08
uint64_t c08_once(Ctx& c, unsigned char junk, bool first, long& left) {
    ctl.junk = junk;
    ctl.err.clear();
    ctl.trace = FNV0;
    long live0 = ctl.live_gnew;
    uint64_t h = FNV0;
    auto mix = [&](uint64_t v) { h = (h ^ v) * 1099511628211ull; };
    auto misuse = [&](Op const& op) {
        if (!ctl.err.empty()) violate("C08.misuse", c.where(op) + ctl.err);
    };
    Op last;
    size_t step = 0;
    {
        World w(c.p, false);
        for (auto& op : c.p.ops) {
            c.step = ++step;
            last = op;
            if (op.kind == K::decode) {
                urls::url_base& b = w.at(op.u);
                Env e;
                {
                    SimAlloc<char> a(e, 77);
                    bool done = false;
                    std::string got;
                    Outcome x = guarded(op.f, [&](Outcome&) { SimString s = decode_call(b, op, a, done); Quiet q; got.assign(s.data(), s.size()); });
                    mix(fnv(FNV0, got) + (uint64_t)x.st);
                    ++stats.ops; ++stats.op_count[(int)op.kind];
                }
                e.sweep();
                misuse(op);
                if (!e.live.empty()) violate("C08.leak", c.where(op) + "a decoded string left memory behind");
                continue;
            }
            Outcome o = w.exec(op, op.f);
            mix((uint64_t)o.st); mix(fnv(FNV0, o.exc)); mix((uint64_t)o.index);
            misuse(op);
            c.nontrivial |= o.st == St::ok && !w.env.live.empty();
            for (auto& s : w.slots) { Obs ob = observe(s.h->b()); uint64_t x = hash(ob); mix(x); mix(s.h->b().capacity()); if (first) c.state(ob); }
            if (step % 8 == 0) { w.env.sweep(); misuse(op); }
            ++stats.checks;
        }
        w.env.sweep();
        misuse(last);
        w.slots.clear();
        w.env.sweep();
        misuse(last);
        if (!w.env.live.empty()) violate("C08.leak", "after every URL was destroyed " + std::to_string(w.env.live.size()) + " blocks remain");
        left = ctl.live_gnew - live0;
    }
    mix(ctl.trace);
    return h;
}
void run_c08(Ctx& c) {
    unsigned char j = (unsigned char)c.p.get("junk", 1);
    long la = 0, lb = 0;
    uint64_t a = c08_once(c, j, true, la);
    uint64_t b = c08_once(c, (unsigned char)(j ^ 0xFF), false, lb);
    // what the first use of the library in this process set up, once and for all, is neither lost nor uninitialised
    for (int n = 0; n < 2 && (a != b || la || lb); ++n) {
        a = c08_once(c, j, false, la);
        b = c08_once(c, (unsigned char)(j ^ 0xFF), false, lb);
    }
    c.note(a);
    if (la && lb) violate("C08.leak", "after every URL was destroyed " + std::to_string(la) + " heap blocks remain");
    if (a != b) violate("C08.uninitialised", "the same history gives different results when fresh memory holds different bytes");
}

//---------------------------------------------------------------- C09
// lengthen the argument so that the result ends at the wanted size
Op fit_op(Op op, M const& m, size_t target) {
    for (size_t n : { size_t(1), size_t(2), size_t(5) }) {
        Op x = op;
        std::string pre = op.kind == K::set_query_part ? "?" : op.kind == K::set_fragment_part ? "#" : op.kind == K::set_path ? "/" : op.kind == K::set_url ? "x:" : "";
        char fill = op.kind == K::set_port ? '1' : 'a';
        x.a = pre + std::string(n, fill);
        auto r = ref::apply(m, x);
        if (r.v != ref::accept) continue;
        long have = (long)r.m.text().size(), need = (long)target - have + (long)n;
        if (need < 1 || need > 200000) continue;
        x.a = pre + std::string((size_t)need, fill);
        return x;
    }
    op.a = "";
    return op;
}
// the capacity reported is memory the URL owns
void owned(Ctx& c, Op const& op, World& w, int u) {
    urls::url_base& b = w.at(u);
    if (!b.capacity() || w.slots[(size_t)u].mem != 0) return;
    auto it = w.env.live.find(const_cast<char*>(b.data()));
    if (it != w.env.live.end() && it->second.n <= b.capacity())
        violate("C09.capacity", c.where(op) + "capacity " + std::to_string(b.capacity()) + " is reported for a block of " + std::to_string(it->second.n) + " bytes");
}
void run_c09(Ctx& c) {
    World w(c.p, false), t(c.p, true);
    for (auto op : c.p.ops) {
        ++c.step;
        int u = w.idx(op.u);
        urls::url_base& b0 = w.at(u);
        size_t cap0 = b0.capacity();
        if (op.fit != INT32_MIN) {
            M m;
            if (cap0 > 12000) op.a = "";                  // capacities double: keep runs short
            else if (resync(w, u, m)) op = fit_op(op, m, (size_t)std::max(0l, (long)cap0 + op.fit));
        }
        char const* p0 = b0.data();
        bool modifies = is_setter(op.kind) || is_seg(op.kind) || op.kind == K::copy_assign;
        Outcome x = t.exec(op, Fault{});
        size_t rs = t.at(u).size();
        bool fits = modifies && x.st == St::ok && rs <= cap0;
        Fault f = op.f;
        if (fits) { f = Fault{}; f.kind = F::starve; }
        Outcome o = w.exec(op, f);
        c.outcome(o);
        auto tag = c.where(op);
        ++stats.checks;
        if (!fits && o.st == St::nomem && ctl.hit) {         // the memory it needed was refused
            urls::url_base& b = w.at(u);
            if (modifies && b.capacity() < cap0) violate("C09.shrink", tag + "failed, and capacity went from " + std::to_string(cap0) + " to " + std::to_string(b.capacity()));
            owned(c, op, w, u);
            o = w.exec(op, Fault{});
        }
        if (fits) {
            c.nontrivial |= cap0 > 0;
            if (rs == cap0) ++stats.probes["result exactly fills the capacity"];
            std::string in = " (capacity " + std::to_string(cap0) + ", result needs " + std::to_string(rs) + ")";
            if (ctl.n_alloc) violate("C09.request", tag + "memory was requested although the result fits" + in);
            if (o.st != St::ok) violate("C09.fails", tag + "failed (" + o.exc + ") although the result fits" + in);
            if (cap0 && w.at(u).data() != p0) violate("C09.moved", tag + "the text moved although the result fits" + in);
        } else if (o.st != x.st) violate("C09.fails", tag + "ended with " + o.exc + ", expected " + x.exc);
        else if (modifies && x.st == St::ok && rs == cap0 + 1) ++stats.probes["result exceeds the capacity by one"];
        urls::url_base& b = w.at(u);
        if (b.capacity() < b.size()) violate("C09.capacity", tag + "capacity " + std::to_string(b.capacity()) + " is less than size " + std::to_string(b.size()));
        if (modifies && b.capacity() < cap0) violate("C09.shrink", tag + "capacity went from " + std::to_string(cap0) + " to " + std::to_string(b.capacity()));
        owned(c, op, w, u);
        if (b.data()[b.size()] != 0) violate("C09.terminator", tag + "no NUL follows the text " + quote(str(b.encoded_url())));
        c.state(observe(b), b.capacity());
    }
}

//---------------------------------------------------------------- C10
void starved_reads(Ctx& c, Op const& op, urls::url_base& b, bool cold) {
    static char const* const rn[NREADS] = { "encoded_url", "encoded_origin", "scheme", "has_authority", "encoded_authority", "has_userinfo", "encoded_userinfo", "userinfo_part", "encoded_user",
        "encoded_password", "host_type", "encoded_host_and_port", "encoded_host", "port", "port_part", "encoded_path", "encoded_query", "query_part", "encoded_fragment", "fragment_part", "size", "data",
        "segments forward", "segments backward", "params forward", "params backward", "params.contains", "params.count", "params.find", "segments begin/end", "params begin/end", "empty segments", "empty params", "capacity", "password_part", "terminator" };
    Obs before;
    if (!cold) before = observe(b);
    std::string text(b.data(), b.size());
    std::unique_ptr<urls::url_view> v;
    try { v.reset(new urls::url_view{ string_view(text) }); } catch (std::exception const&) {}
    Arg arg(op.a, op.i & 1);
    string_view key = arg;
    uint64_t res[3][NREADS];
    bool seen[3][NREADS] = {};
    Rng r((uint64_t)op.i * 7919 + 13);
    Fault total;
    total.kind = F::total;
    int who = 0, which = 0;
    bool differs = false;
    Outcome o = guarded(total, [&](Outcome&) {
        for (int n = 0; n < 3 * NREADS; ++n) {
            who = (int)r.below(3);
            which = (int)r.below(NREADS);
            if (who == 2 && (which >= NCOMMON || !v)) continue;
            if (who == 1 && which >= NCOMMON) continue;
            uint64_t x = who == 0 ? one_read_url(b, which, key)
                : who == 1 ? one_read(const_cast<urls::url_base const&>(b), which, key)
                : one_read(const_cast<urls::url_view const&>(*v), which, key);
            if (!seen[who][which]) { seen[who][which] = true; res[who][which] = x; }
            else if (res[who][which] != x) { differs = true; break; }
        }
    });
    ++stats.checks;
    auto tag = c.where(op) + "on " + quote(text) + ": ";
    if (ctl.n_alloc || ctl.n_gnew) violate("C10.request", tag + "memory was requested by " + rn[which]);
    if (o.st != St::ok) violate("C10.throws", tag + rn[which] + " threw " + o.exc);
    if (differs) violate("C10.repeat", tag + rn[which] + " gave different results");
    for (int w2 = 0; w2 < 3; ++w2) for (int k = 31; k < 33; ++k)
        if (seen[w2][k] && res[w2][k] != 30) violate("C10.empty", tag + rn[k] + ": a default-constructed sequence is not an empty one");
    // against the same reads made afterwards in order, with memory
    for (int w2 = 0; w2 < 3; ++w2) for (int k = 0; k < NREADS; ++k) if (seen[w2][k]) {
        uint64_t x = w2 == 0 ? one_read_url(b, k, key) : w2 == 1 ? one_read(const_cast<urls::url_base const&>(b), k, key) : one_read(const_cast<urls::url_view const&>(*v), k, key);
        if (x != res[w2][k]) violate("C10.repeat", tag + rn[k] + " gave different results");
        c.note(x);
    }
    auto d = cold ? std::string() : diff(observe(b), before);
    if (!d.empty()) violate("C10.changed", tag + "reading changed something: " + d);
}
void run_c10(Ctx& c) {
    World w(c.p, false);
    bool cold = c.p.get("cold", 0) != 0;      // nothing is read before the first starved read
    for (auto& op : c.p.ops) {
        ++c.step;
        if (op.kind == K::read) {
            ++stats.ops; ++stats.op_count[(int)op.kind];
            starved_reads(c, op, w.at(op.u), cold);
            cold = false;
            c.nontrivial |= w.at(op.u).size() > 0;
            c.state(observe(w.at(op.u)), (uint64_t)op.i + 1);
            continue;
        }
        bool nothrow = op.kind == K::seg_erase || op.kind == K::seg_erase_range || op.kind == K::normalize_scheme ||
            (op.kind == K::move_ctor) || op.kind == K::ctor_default;
        Fault f;
        if (nothrow) f.kind = F::total;
        Outcome o = w.exec(op, f);
        c.outcome(o);
        if (nothrow) {
            ++stats.checks;
            if (ctl.n_alloc || ctl.n_gnew) violate("C10.request", c.where(op) + "memory was requested by an operation documented as no-throw");
            if (o.st != St::ok) violate("C10.throws", c.where(op) + "an operation documented as no-throw threw " + o.exc);
            c.nontrivial = true;
        }
        if (!cold) c.state(observe(w.at(op.u)));
    }
}

//---------------------------------------------------------------- C11
void run_c11(Ctx& c) {
    std::vector<Op const*> parts;
    std::vector<Op const*> orders;
    Op const* base = nullptr;
    for (auto& op : c.p.ops) {
        if (op.kind == K::permute) orders.push_back(&op);
        else if (!base && op.kind == K::set_url) base = &op;
        else parts.push_back(&op);
    }
    bool have = false;
    Obs first;
    std::string first_order;
    for (size_t k = 0; k <= orders.size(); ++k) {
        c.step = k;
        std::vector<size_t> ix(parts.size());
        std::iota(ix.begin(), ix.end(), 0);
        if (k) {
            auto& keys = orders[k - 1]->a;
            std::stable_sort(ix.begin(), ix.end(), [&](size_t a, size_t b) { return (a < keys.size() ? (unsigned char)keys[a] : 0) < (b < keys.size() ? (unsigned char)keys[b] : 0); });
        }
        World w(c.p, false);
        if (base) { Outcome o = w.exec(*base, Fault{}); if (o.st != St::ok) { c.note(99); } }
        bool all = true;
        std::string order;
        for (size_t i : ix) {
            Outcome o = w.exec(*parts[i], parts[i]->f);
            if (o.st == St::nomem) o = w.exec(*parts[i], Fault{});
            c.outcome(o);
            if (o.st != St::ok) { all = false; break; }
            order += std::string(kind_names[(int)parts[i]->kind]) + " ";
        }
        if (!all) continue;
        Obs o = observe(w.at(0));
        c.state(o, k);
        if (!have) { have = true; first = o; first_order = order; continue; }
        if (order != first_order) c.nontrivial = true;
        auto d = diff(o, first);
        if (!d.empty()) violate("C11.order", "setting in the order [" + order + "] and in the order [" + first_order + "] give different URLs: " + d);
    }
}

//---------------------------------------------------------------- C12
struct alignas(32) Wide { char c[32]; };
struct Odd { char c[7]; };
struct Big { double d[5]; };
struct alignas(128) Line { char c[128]; };
struct Page { uint16_t w[150]; };
struct Block { char* p; size_t n; unsigned char pat; int type; size_t count; };
template<class T> using PA = urls::basic_static_pool::allocator_type<T>;
template<class T>
Outcome pool_get(urls::basic_static_pool& pool, size_t n, char*& out) {
    return guarded(Fault{}, [&](Outcome&) {
        PA<char> a0 = pool.allocator();
        PA<T> a(a0);
        out = reinterpret_cast<char*>(a.allocate(n));
    });
}
template<class T> Outcome pool_put(urls::basic_static_pool& pool, char* p, size_t n) {
    return guarded(Fault{}, [&](Outcome&) {
        PA<T> a(pool);
        a.deallocate(reinterpret_cast<T*>(p), n);
    });
}
template<template<class> class Fn, class... A>
auto by_type(int t, A&&... a) {
    switch (t) {
    case 0: return Fn<char>()(a...);
    case 1: return Fn<uint16_t>()(a...);
    case 2: return Fn<uint32_t>()(a...);
    case 3: return Fn<uint64_t>()(a...);
    case 4: return Fn<Odd>()(a...);
    case 5: return Fn<Big>()(a...);
    case 6: return Fn<Wide>()(a...);
    case 7: return Fn<Line>()(a...);
    default: return Fn<Page>()(a...);
    }
}
template<class T> struct Get { Outcome operator()(urls::basic_static_pool& p, size_t n, char*& out) { return pool_get<T>(p, n, out); } };
template<class T> struct Put { Outcome operator()(urls::basic_static_pool& p, char* q, size_t n) { return pool_put<T>(p, q, n); } };

// A pool which can be copied must not hand out, through the copy, memory of the original.
template<class P, bool = std::is_copy_constructible<P>::value>
struct CopyPool { static std::string check(P&) { return ""; } };
template<class P>
struct CopyPool<P, true> {
    static std::string check(P& p) {
        P q(p);
        char *a = nullptr, *b = nullptr;
        if (pool_get<char>(q, 3, a).st != St::ok || pool_get<char>(p, 3, b).st != St::ok) return "";
        return a < b + 3 && b < a + 3 ? "a pool and its copy handed out the same memory" : "";
    }
};

struct PoolBox {
    char* raw; size_t total;             // memory around the pool
    char *lo, *hi;                       // every block must lie in here
    size_t size;                         // bytes promised
    bool exact;                          // the buffer starts at lo
    urls::basic_static_pool* pool;
    std::function<std::string()> copied;
    std::function<void()> end;
};
template<size_t N> void make_static(PoolBox& b, size_t off) {
    using P = urls::static_pool<N>;
    off = off / alignof(P) * alignof(P);
    b.total = (64 + off + sizeof(P) + 64 + 127) / 64 * 64;
    b.raw = static_cast<char*>(std::aligned_alloc(64, b.total));
    std::memset(b.raw, 0xFB, b.total);
    P* p = ::new (b.raw + 64 + off) P;
    b.lo = reinterpret_cast<char*>(p); b.hi = b.lo + sizeof(P);
    b.size = N; b.exact = false; b.pool = p;
    b.copied = [p] { return CopyPool<P>::check(*p); };
    b.end = [p] { p->~P(); };
}

void run_c12(Ctx& c) {
    PoolBox x;
    std::unique_ptr<urls::basic_static_pool> own;
    size_t off = (size_t)c.p.get("off") % 64;
    switch (c.p.get("static")) {
    case 0: {
        size_t size = (size_t)c.p.get("size");
        x.total = (64 + off + size + 64 + 127) / 64 * 64;
        x.raw = static_cast<char*>(std::aligned_alloc(64, x.total));
        std::memset(x.raw, 0xFB, x.total);
        x.lo = x.raw + 64 + off; x.hi = x.lo + size;
        std::memset(x.lo, (int)c.p.get("junk", 1), size);
        x.size = size; x.exact = true;
        own.reset(new urls::basic_static_pool(x.lo, size));
        x.pool = own.get();
        x.copied = [&] { return CopyPool<urls::basic_static_pool>::check(*own); };
        x.end = [] {};
        break;
    }
    case 1: make_static<1>(x, off); break;
    case 2: make_static<13>(x, off); break;
    case 3: make_static<64>(x, off); break;
    case 4: make_static<100>(x, off); break;
    case 5: make_static<256>(x, off); break;
    case 6: make_static<1000>(x, off); break;
    default: make_static<4096>(x, off); break;
    }
    struct Free { PoolBox& x; ~Free() { x.end(); std::free(x.raw); } } fr{ x };
    auto& pool = *x.pool;
    char *raw = x.raw, *lo = x.lo, *hi = x.hi;
    size_t size = x.size;
    std::vector<Block> blocks;
    size_t top = 0;                       // end of the highest block, as seen from outside
    size_t used = 0;                      // upper bound of what was consumed, alignment included
    bool known = true;                    // nothing used the pool whose demands are invisible
    int ns = (int)c.p.get("slots", 0);
    std::vector<std::unique_ptr<Holder>> us;
    std::vector<Obs> shadow;
    // containers which live in the pool, and what they should contain
    std::vector<uint32_t, PA<uint32_t>> cv{ PA<uint32_t>(pool) }; std::vector<uint32_t> sv;
    std::list<uint64_t, PA<uint64_t>> cl{ PA<uint64_t>(pool.allocator()) }; std::vector<uint64_t> sl;
    std::vector<Odd, PA<Odd>> co{ PA<Odd>(pool) }; std::vector<char> so;
    struct Str { std::basic_string<char, std::char_traits<char>, PA<char>> s; std::string want; };
    std::list<Str> strs;
    for (int i = 0; i < ns; ++i) { us.emplace_back(new HolderT<PoolUrl>(0, pool.allocator())); shadow.push_back(observe(us.back()->b())); }
    auto intact = [&](Op const& op, bool after_failure) {
        ++stats.checks;
        char const* label = after_failure ? "C12.failed" : "C12.overlap";
        for (auto& b : blocks) for (size_t i = 0; i < b.n; ++i) if ((unsigned char)b.p[i] != b.pat)
            violate("C12.overlap", c.where(op) + "a block handed out earlier was overwritten");
        for (size_t i = 0; i < us.size(); ++i) {
            auto d = diff(observe(us[i]->b()), shadow[i]);
            if (!d.empty()) violate(label, c.where(op) + "url" + std::to_string(i) + " stored in the pool changed: " + d);
        }
        bool same = cv.size() == sv.size() && std::equal(sv.begin(), sv.end(), cv.begin()) && co.size() == so.size();
        for (size_t i = 0; same && i < so.size(); ++i) for (char ch : co[i].c) if (ch != so[i]) same = false;
        size_t k = 0;
        if (same) for (auto v : cl) if (k >= sl.size() || sl[k++] != v) { same = false; break; }
        if (!same || k != sl.size()) violate(label, c.where(op) + "a container stored in the pool changed");
        for (auto& s : strs) if (s.s.size() != s.want.size() || s.want.compare(0, s.want.size(), s.s.data(), s.s.size()) != 0) violate(label, c.where(op) + "a decoded string stored in the pool changed");
        for (char* p = raw; p < lo; ++p) if ((unsigned char)*p != 0xFB) violate("C12.outside", c.where(op) + "bytes before the pool's buffer were written");
        for (char* p = hi; p < raw + x.total; ++p) if ((unsigned char)*p != 0xFB) violate("C12.outside", c.where(op) + "bytes behind the pool's buffer were written");
    };
    static size_t const esize[] = { 1, 2, 4, 8, sizeof(Odd), sizeof(Big), sizeof(Wide), sizeof(Line), sizeof(Page) };
    static size_t const ealign[] = { 1, 2, 4, 8, alignof(Odd), alignof(Big), alignof(Wide), alignof(Line), alignof(Page) };
    // no two users of the pool may share a byte
    auto extents = [&](Op const& op) {
        struct E { char const *s, *e; char const* what; };
        std::vector<E> v;
        for (auto& b : blocks) if (b.n) v.push_back({ b.p, b.p + b.n, "a block" });
        for (auto& h : us) if (h->b().capacity()) v.push_back({ h->b().data(), h->b().data() + h->b().capacity() + 1, "a URL" });
        if (cv.capacity()) v.push_back({ (char const*)cv.data(), (char const*)(cv.data() + cv.capacity()), "a vector" });
        if (co.capacity()) v.push_back({ (char const*)co.data(), (char const*)(co.data() + co.capacity()), "a vector" });
        for (auto& e : cl) v.push_back({ (char const*)&e, (char const*)(&e + 1), "a list node" });
        for (auto& s : strs) if ((char const*)&s > s.s.data() || s.s.data() >= (char const*)(&s + 1)) v.push_back({ s.s.data(), s.s.data() + s.s.capacity() + 1, "a string" });
        std::sort(v.begin(), v.end(), [](E const& a, E const& b) { return a.s < b.s; });
        for (size_t i = 0; i < v.size(); ++i) {
            if (v[i].s < lo || v[i].e > hi) violate("C12.outside", c.where(op) + v[i].what + " lies outside the pool's buffer");
            if (i && v[i].s < v[i - 1].e) violate("C12.overlap", c.where(op) + v[i].what + " overlaps " + v[i - 1].what);
        }
    };
    for (auto& op : c.p.ops) {
        ++c.step;
        ++stats.ops; ++stats.op_count[(int)op.kind];
        if (op.kind == K::pool_alloc) {
            int t = ((op.u % 9) + 9) % 9;
            size_t es = esize[t], al = ealign[t], n;
            size_t gap = x.exact ? (al - (reinterpret_cast<uintptr_t>(lo) + top) % al) % al : al - 1;
            size_t from = x.exact ? top : used;
            size_t room = known && from + gap <= size ? size - from - gap : 0;      // certainly available
            if (op.fit != INT32_MIN) { long k = (long)(room / es) + op.fit; n = k < 0 ? 0 : (size_t)k; }
            else if (op.i < 0) {
                size_t d = (size_t)(-op.i);
                switch (op.j & 3) {
                case 0: n = (size_t)-1 / es - d; break;            // just below the largest count
                case 1: n = (size_t)-1 / es + d; break;            // product wraps
                case 2: n = ((size_t)1 << 63) / es + d; break;
                default: n = (size_t)0 - d; break;
                }
            } else n = (size_t)op.i;
            char* p = nullptr;
            Outcome o = by_type<Get>(t, pool, n, p);
            c.outcome(o);
            bool possible = n <= size / es;
            bool must = possible && n && n * es <= room;
            std::string in = " (" + std::to_string(n) + " x " + std::to_string(es) + " bytes, " + std::to_string(from) + " of " + std::to_string(size) + " used)";
            if (o.st == St::ok) {
                c.nontrivial = true;
                if (!possible) violate("C12.toolarge", c.where(op) + "a request larger than the pool succeeded" + in);
                if (reinterpret_cast<uintptr_t>(p) % al) violate("C12.align", c.where(op) + "the block is misaligned" + in);
                used += n * es + al - 1;
                if (n * es) {
                    if (p < lo || p + n * es > hi) violate("C12.outside", c.where(op) + "the block lies outside the pool's buffer" + in);
                    Block b{ p, n * es, (unsigned char)(c.step * 37 + 1), t, n };
                    blocks.push_back(b);
                    extents(op);
                    std::memset(p, b.pat, b.n);
                    c.note((uint64_t)(p - lo));
                    top = std::max(top, (size_t)(p - lo) + n * es);
                    if (n * es == room && n) ++stats.probes["pool filled to the last byte"];
                } else if (p) top = std::max(top, p > lo && p <= hi ? (size_t)(p - lo) : (size_t)0);
            } else {
                ++stats.fired_pool;
                if (o.st != St::nomem) violate("C12.error", c.where(op) + "a request which does not fit reported " + o.exc + in);
                if (must) violate("C12.refused", c.where(op) + "a request which fits was refused" + in);
                c.nontrivial = true;
            }
            intact(op, o.st != St::ok);
        } else if (op.kind == K::pool_free) {
            if (blocks.empty()) continue;
            size_t k = op.i < 0 ? blocks.size() - 1 : (size_t)op.i % blocks.size();
            // whether or not returned memory is used again, the rest must not be disturbed
            Block b = blocks[k];
            blocks.erase(blocks.begin() + (long)k);
            Outcome o = by_type<Put>(b.type, pool, b.p, b.count);
            if (o.st != St::ok) violate("C12.error", c.where(op) + "returning a block reported " + o.exc);
            ++stats.probes["block returned"];
            intact(op, false);
        } else if (op.kind == K::pool_cont || op.kind == K::pool_string) {
            known = false;                // growth policy of the containers is not ours to know
            Outcome o;
            int n = op.i < 0 ? 1 : op.i % 12;
            if (op.kind == K::pool_string) {
                if (us.empty()) continue;
                size_t u = (size_t)op.u % us.size();
                auto& b = us[u]->b();
                std::string want;
                bool part = op.j & 1;
                try { want = part ? std::string(b.encoded_query()) : std::string(b.encoded_host()); } catch (std::exception const&) { continue; }
                want = ref::pct_decode(want);
                std::list<Str> one;
                o = guarded(Fault{}, [&](Outcome&) {
                    ctl.armed = false;
                    auto a = pool.allocator();
                    one.push_back(Str{ part ? b.query(a) : b.host(a), want });
                });
                strs.splice(strs.end(), one);
            } else if (op.u % 4 == 0) {
                for (int i = 0; i < n && o.st == St::ok; ++i) {
                    uint32_t v = (uint32_t)(c.step * 1000 + i);
                    o = guarded(Fault{}, [&](Outcome&) { cv.push_back(v); });
                    if (o.st == St::ok) sv.push_back(v);
                }
            } else if (op.u % 4 == 1) {
                for (int i = 0; i < n && o.st == St::ok; ++i) {
                    uint64_t v = (uint64_t)c.step * 1000 + (uint64_t)i;
                    o = guarded(Fault{}, [&](Outcome&) { cl.push_back(v); });
                    if (o.st == St::ok) sl.push_back(v);
                }
            } else if (op.u % 4 == 2) {
                for (int i = 0; i < n && o.st == St::ok; ++i) {
                    Odd v; std::memset(v.c, (char)(c.step * 7 + i), sizeof v.c);
                    o = guarded(Fault{}, [&](Outcome&) { co.push_back(v); });
                    if (o.st == St::ok) so.push_back(v.c[0]);
                }
            } else {                       // take from the front and the back
                while (n-- > 0 && !sl.empty()) { if (n & 1) { cl.pop_front(); sl.erase(sl.begin()); } else { cl.pop_back(); sl.pop_back(); } }
                if (op.j & 1 && !strs.empty()) strs.pop_back();
            }
            if (o.st == St::rejected) violate("C12.error", c.where(op) + "a request which does not fit reported " + o.exc);
            if (o.st == St::nomem) ++stats.fired_pool;
            c.outcome(o);
            c.nontrivial = true;
            extents(op);
            intact(op, o.st != St::ok);
        } else if (op.kind == K::pool_copy) {
            char spare[8];
            urls::basic_static_pool other(spare, sizeof spare);
            PA<char> a0 = pool.allocator(), a1 = other.allocator();
            PA<Big> a2(a0);
            if (!(a0 == a2) || a0 != a2 || a0 == a1 || !(a0 != a1) || !(a2 == pool.allocator()) || PA<Big>(a1) == a2)
                violate("C12.equal", c.where(op) + "allocators of one pool must compare equal, those of different pools unequal");
            PA<Big> a3(a1);
            if (a2 == a3 || a3 == a2 || !(a2 != a3) || !(a3 != a0) || a3 == a0 || a3 != a1 || !(a1 == a3))
                violate("C12.equal", c.where(op) + "allocators of one pool must compare equal, those of different pools unequal");
            if constexpr (std::is_default_constructible<PA<Big>>::value) {          // one without a pool
                PA<Big> n;
                if (n == a0 || a0 == n || !(n != a0) || !(a0 != n) || a2 == n || !(n == PA<char>(n)) || n != PA<char>(n))
                    violate("C12.equal", c.where(op) + "an allocator without a pool compares equal to one which has a pool, or unequal to its copy");
            }
            auto d = x.copied();
            known = false;
            if (!d.empty()) violate("C12.copy", c.where(op) + d);
        } else if (!us.empty()) {
            size_t u = (size_t)op.u % us.size();
            Outcome o;
            if (is_object(op.kind)) {
                size_t j = (size_t)op.j % us.size();
                if (op.kind == K::copy_assign || op.kind == K::move_assign) {
                    o = guarded(Fault{}, [&](Outcome&) { us[u]->assign(*us[j]); });
                } else if (op.kind == K::ctor_str || op.kind == K::copy_ctor) {
                    Arg a(op.a, false);
                    Holder* h = nullptr;
                    o = guarded(Fault{}, [&](Outcome&) { h = op.kind == K::copy_ctor ? us[j]->copy() : new HolderT<PoolUrl>(0, string_view(a), pool.allocator()); });
                    if (o.st == St::ok) us[u].reset(h);
                }
            } else o = apply_to(us[u]->b(), op, Fault{});
            c.outcome(o);
            if (o.st == St::ok) { shadow[u] = observe(us[u]->b()); c.nontrivial = true; }
            else if (o.st == St::nomem) {
                ++stats.fired_pool;
                c.nontrivial = true;
            }
            // what the URL used and abandoned is not visible from outside
            known = false;
            extents(op);
            intact(op, o.st != St::ok);
        }
        c.note(top);
        uint64_t st = FNV0;
        for (auto& b : blocks) st = (st ^ (uint64_t)(b.p - lo) ^ b.n << 20) * 1099511628211ull;
        if (states && states->size() < 400000) states->insert(st ^ size << 40 ^ off);
    }
}

//---------------------------------------------------------------- C14
void run_c14(Ctx& c) {
    World w(c.p, false), t(c.p, true);
    std::vector<bool> moved(w.slots.size(), false);
    for (auto& op : c.p.ops) {
        ++c.step;
        int u = w.idx(op.u), j = w.idx(op.j);
        auto before = observe_all(w);
        Outcome o = w.exec(op, op.f);
        for (int attempt = 0; o.st == St::nomem; ++attempt) {
            if (is_object(op.kind)) {
                c.nontrivial = true;
                expect_all(c, op, "C14.failed", "the operation failed and changed something", w, before);
            } else expect_all(c, op, "C14.independent", "a failed modification of one URL changed another", w, before, u);
            if (attempt || !op.retry) break;
            o = w.exec(op, Fault{});
        }
        c.outcome(o);
        if (o.st == St::rejected) {
            if (is_object(op.kind)) {
                if (op.kind != K::ctor_str) violate("C14.refused", c.where(op) + "was refused (" + o.exc + ")");
                expect_all(c, op, "C14.failed", "the construction failed and changed something", w, before);
            } else expect_all(c, op, "C14.independent", "a rejected modification of one URL changed another", w, before, u);
        }
        if (o.st == St::ok) {
            auto after = observe_all(w);
            bool mv = (op.kind == K::move_ctor || op.kind == K::move_assign) && u != j;
            for (size_t i = 0; i < after.size(); ++i) {
                if ((int)i == u || (mv && (int)i == j)) continue;
                auto d = diff(after[i], before[i]);
                if (!d.empty()) violate("C14.independent", c.where(op) + "changed url" + std::to_string(i) + ", which is another URL: " + d);
            }
            if (op.kind == K::copy_ctor || op.kind == K::copy_assign || op.kind == K::move_ctor || op.kind == K::move_assign) {
                c.nontrivial = true;
                if (!(op.kind == K::move_assign && u == j)) {
                    auto d = diff(after[u], before[j]);
                    if (!d.empty()) violate(u == j ? "C14.self" : "C14.equal", c.where(op) + "the result differs from its source: " + d);
                }
            } else if (op.kind == K::ctor_str) {
                c.nontrivial = true;
                auto d = diff(after[u], [&] { try { urls::url_view v{ string_view(op.a) }; Obs x = observe(v); return x; } catch (std::exception const&) { return Obs(); } }(), VIEW_SKIP);
                if (!d.empty() || after[u].f[O_text] != op.a) violate("C14.equal", c.where(op) + "the URL differs from the text it was constructed from: " + d);
                moved[u] = false;
            }
            // companion: a moved-from URL must go on like any URL with its text
            bool need = moved[u] || (is_object(op.kind) && moved[j]);
            Outcome x = t.exec(op, Fault{});
            if (need && !is_object(op.kind) && (x.st != o.st || x.index != o.index)) violate("C14.reuse", c.where(op) + "a moved-from URL does not behave like a fresh one");
            if (mv) {
                check_fresh(c, op, w.at(j), "C14.moved");
                moved[j] = true;
            }
            if (moved[u] && !is_object(op.kind)) {
                auto d = diff(after[u], observe(t.at(u)));
                if (!d.empty()) violate("C14.reuse", c.where(op) + "a moved-from URL does not behave like a fresh one: " + d);
                ++stats.probes["moved-from URL modified"];
            }
            if (is_object(op.kind)) {
                // keep the companion in step: each URL is rebuilt from its text
                for (int k : { u, j }) { std::string s = slot_text(w, k); string_view sv(s); try { t.slots[k].h.reset(t.make(k, &sv, 1)); } catch (std::exception const&) {} }
                moved[u] = op.kind == K::move_assign && u == j ? moved[u] : false;
            }
        } else if (o.st == St::rejected && !is_object(op.kind) && moved[u]) {
            Outcome x = t.exec(op, Fault{});
            if (x.st != o.st) violate("C14.reuse", c.where(op) + "a moved-from URL does not behave like a fresh one");
        }
        for (auto& s : w.slots) c.state(observe(s.h->b()));
    }
}

//---------------------------------------------------------------- C20
// What a call reports is what happened.
struct Judge {
    Ctx& c; Op const& op; long serial0; size_t max; bool limited, pool;
    std::string on;
    // v: what the model says of the arguments; need: bytes of text the URL would have to hold
    void report(Outcome const& o, ref::Verdict v, size_t need, char const* who) {
        ++stats.checks;
        auto tag = c.where(op) + who + " on " + quote(on) + ": ";
        if (o.mark) {
            if (o.mark <= serial0 || o.mark > ctl.serial) violate("C20.cause", tag + "threw the exception of an earlier refusal");
            c.nontrivial = true;
            return;
        }
        if (o.st == St::ok) {
            if (v == ref::reject) violate("C20.silent", tag + "reported success for an argument it must refuse");
            return;
        }
        if (o.exc == "invalid_argument") {
            if (v == ref::accept) violate("C20.cause", tag + "blamed the argument, which is valid" + (ctl.hit || ctl.limited ? "; memory was refused" : ""));
            c.nontrivial = true;
            return;
        }
        if (o.exc == "bad_alloc") {
            if (!pool) violate("C20.cause", tag + "threw a bad_alloc of its own" + (ctl.hit || ctl.limited ? " instead of the exception which refused the memory" : "; no memory was refused"));
            c.nontrivial = true;
            return;
        }
        if (o.exc == "length_error") {
            if (!limited || need + 4 < max) violate("C20.cause", tag + "threw length_error for a result of " + std::to_string(need) + " characters" + (ctl.hit || ctl.limited ? "; memory was refused" : ""));
            c.nontrivial = true;
            return;
        }
        violate("C20.cause", tag + "threw " + o.exc);
    }
};
void run_c20(Ctx& c) {
    ctl.exc = (int)c.p.get("exc", 1);
    World w(c.p, false);
    for (auto& op : c.p.ops) {
        ++c.step;
        int u = w.idx(op.u), j = w.idx(op.j);
        M m, mj;
        if (!resync(w, u, m) || !resync(w, j, mj)) return;
        bool const pool = w.slots[u].mem == 2;
        Judge jd{ c, op, ctl.serial, w.env.max, w.env.max < (size_t(-1) / 8), pool, m.text() };
        if (op.kind == K::decode) {
            ++stats.ops; ++stats.op_count[(int)op.kind];
            urls::url_base& b = w.at(u);
            Obs ob = observe(b);
            std::string text = ob.f[O_text];
            std::string want;
            bool have = decode_want(ob, op, want), keyed = op.i % 10 >= 8;
            std::unique_ptr<urls::url_view> v;
            try { v.reset(new urls::url_view{ string_view(text) }); } catch (std::exception const&) {}
            for (int round = 0; round < 8; ++round) {      // 4-6: operator[], 7: conversion to a pair
                Env e;
                SimAlloc<char> a(e, 77);
                bool done = false;
                if (round > 3 && round < 7 && !keyed) continue;
                if (round == 7 && op.i % 10 != 6 && op.i % 10 != 7) continue;
                std::string got;
                jd.serial0 = ctl.serial;
                if ((round == 2 || round == 3 || round == 6) && !v) continue;
                string_view key(op.a.data(), op.a.size());
                Outcome o = guarded(op.f, [&](Outcome&) {
                    auto take = [&](auto const& s) { Quiet q; got.assign(s.data(), s.size()); };
                    if (round == 0) take(decode_call(b, op, a, done));
                    else if (round == 1) take(decode_call(b, op, std::allocator<char>(), done));
                    else if (round == 2) take(decode_call(const_cast<urls::url_view const&>(*v), op, a, done));
                    else if (round == 3) take(decode_call(const_cast<urls::url_view const&>(*v), op, std::allocator<char>(), done));
                    else if (round == 4) { take(b.params()[key]); done = true; }
                    else if (round == 5) { take(const_cast<urls::url_base const&>(b).params()[key]); done = true; }
                    else if (round == 6) { take(v->params()[key]); done = true; }
                    else {
                        auto s = b.params();
                        if (size_t n = s.size()) {
                            auto it = s.begin();
                            for (size_t k = (size_t)op.j % n; k--;) ++it;
                            std::pair<std::string const, std::string> kv = *it;
                            take(op.i % 10 == 6 ? kv.first : kv.second);
                            done = true;
                        }
                    }
                });
                c.outcome(o);
                auto tag = c.where(op) + "on " + quote(text) + ": ";
                ++stats.checks;
                if (o.mark) { c.nontrivial = true; if (o.mark <= jd.serial0) violate("C20.cause", tag + "threw the exception of an earlier refusal"); }
                else if (keyed && !have && round > 3) {
                    if (o.st != St::ok || !got.empty()) violate("C20.cause", tag + "operator[] of a missing key gave " + (o.st == St::ok ? quote(got) : o.exc));
                }
                else if (keyed && !have) {
                    if (o.st == St::ok) violate("C20.silent", tag + "returned " + quote(got) + " for a key which is not there");
                    if (o.exc != "out_of_range") violate("C20.cause", tag + "a missing key was reported as " + o.exc);
                    c.nontrivial = true;
                }
                else if (o.st != St::ok) violate("C20.cause", tag + "threw " + o.exc + (ctl.hit ? " instead of the exception which refused the memory" : "; no memory was refused"));
                else if (done && have && got != want) violate("C20.silent", tag + "reported success but returned " + quote(got) + " for " + quote(want));
            }
            continue;
        }
        if (op.kind == K::read) {                 // parse a view
            ++stats.ops; ++stats.op_count[(int)op.kind];
            Op x = op; x.kind = K::set_url;
            auto r = ref::apply(M(), x);
            Arg arg(op.a, op.i & 1);
            jd.serial0 = ctl.serial;
            Outcome o = guarded(op.f, [&](Outcome&) { urls::url_view v{ string_view(arg) }; (void)v; });
            c.outcome(o);
            jd.pool = false; jd.limited = false; jd.on = "a view";
            jd.report(o, r.v, 0, "parse");
            continue;
        }
        for (int round = 0; round < 2; ++round) {
            ref::Result r;
            bool const same = w.slots[u].mem == w.slots[j].mem;
            Op x = op;
            if (op.kind == K::ctor_default) r.v = ref::accept;
            else if (op.kind == K::ctor_str) { x.kind = K::set_url; r = ref::apply(M(), x); }
            else if (is_object(op.kind)) { r.v = ref::accept; r.m = mj; }
            else r = ref::apply(m, x);
            jd.serial0 = ctl.serial;
            Outcome o = w.exec(op, round ? Fault{} : op.f);
            c.outcome(o);
            size_t need = r.v == ref::accept ? r.m.text().size() : r.v == ref::unknown ? size_t(-1) / 16 : m.text().size() + op.a.size() * 3;
            jd.limited = w.env.max < (size_t(-1) / 8) && w.slots[u].mem == 0;
            jd.pool = pool;
            (void)same;
            jd.report(o, r.v, need, round ? "again, with memory," : "");
            if (o.st == St::ok && r.v == ref::accept) {
                auto t = slot_text(w, u);
                if (t != r.m.text() && !(u == j && op.kind == K::move_assign)) violate("C20.silent", c.where(op) + "on " + quote(m.text()) + ": reported success but the text is " + quote(t) + ", expected " + quote(r.m.text()));
            }
            if (!(o.st == St::nomem && op.retry)) break;
            if (!resync(w, u, m) || !resync(w, j, mj)) return;
            jd.on = m.text();
        }
        c.state(observe(w.at(u)), (uint64_t)op.kind + 100 * (uint64_t)ctl.exc);
    }
}

//---------------------------------------------------------------- C21
// Views over text of the caller.
void run_c21(Ctx& c) {
    struct VSlot {
        std::unique_ptr<urls::url_view> v{ new urls::url_view };
        string_view t;
        M m;
        urls::url_view::segments_type::iterator sb, se;
        urls::url_view::params_type::iterator pb, pe;
        // iterators the caller keeps; the sequence objects they came from are gone
        void keep() { sb = v->segments().begin(); se = v->segments().end(); pb = v->params().begin(); pe = v->params().end(); }
    };
    std::vector<std::unique_ptr<Arg>> texts;
    std::vector<VSlot> s((size_t)std::max(1l, c.p.get("slots", 2)));
    for (auto& x : s) x.keep();
    Fault total;
    total.kind = F::total;
    ctl.err.clear();
    for (auto& op : c.p.ops) {
        ++c.step;
        ++stats.ops; ++stats.op_count[(int)op.kind];
        VSlot& u = s[(size_t)op.u % s.size()];
        VSlot& j = s[(size_t)op.j % s.size()];
        auto tag = c.where(op);
        Outcome o;
        switch (op.kind) {
        case K::ctor_str: case K::set_url: case K::read: {
            Op x = op;
            string_view part;
            if (op.kind == K::read) {              // a part of the text of another view
                if (j.t.empty()) continue;
                size_t from = op.i % 3 ? 0 : (size_t)op.i / 3 % j.t.size(), n = op.i % 3 == 1 ? (size_t)op.i / 3 % (j.t.size() + 1) : j.t.size();
                part = j.t.substr(from, n);
                x.a = str(part);
            }
            x.kind = K::set_url;
            auto r = ref::apply(M(), x);
            if (r.v == ref::unknown) continue;
            if (op.kind != K::read) { texts.emplace_back(new Arg(op.a, op.i & 1)); part = *texts.back(); }
            string_view const text = part;
            for (int round = 0; round < 2; ++round) {
                std::unique_ptr<urls::url_view> fresh;
                void* room = op.kind == K::ctor_str ? ::operator new(sizeof(urls::url_view)) : nullptr;
                if (room) std::memset(room, ctl.junk, sizeof(urls::url_view));
                o = guarded(round ? Fault{} : r.v == ref::accept && (op.j & 1) ? total : op.f, [&](Outcome&) {
                    if (room) fresh.reset(new (room) urls::url_view(text));
                    else *u.v = urls::url_view(text);
                });
                c.outcome(o);
                ++stats.checks;
                if (o.st != St::ok && room) ::operator delete(room);
                if (r.v == ref::accept) {
                    if (ctl.n_gnew || ctl.n_alloc) violate("C21.request", tag + "memory was requested for a view of valid text");
                    if (o.st != St::ok) violate("C21.refused", tag + "valid text was refused (" + o.exc + ")");
                    if (room) u.v = std::move(fresh);
                    u.t = text;
                    u.m = r.m;
                    u.keep();
                    c.nontrivial |= text.size() > 0;
                } else {
                    if (o.st == St::ok) violate("C21.accepted", tag + "text which is not a URI-reference was accepted");
                    if (o.st == St::nomem && !ctl.hit) violate("C21.refused", tag + "failed for memory although none was short");
                    ++(o.st == St::nomem ? stats.nomem : stats.rejected);
                    c.nontrivial = true;
                    if (o.st == St::nomem) continue;
                }
                break;
            }
            break;
        }
        case K::ctor_default: case K::copy_ctor: case K::copy_assign: case K::move_ctor: case K::move_assign: {
            void* room = op.kind == K::copy_ctor || op.kind == K::move_ctor || op.kind == K::ctor_default ? ::operator new(sizeof(urls::url_view)) : nullptr;
            if (room) std::memset(room, ctl.junk, sizeof(urls::url_view));
            urls::url_view* fresh = nullptr;
            o = guarded(total, [&](Outcome&) {
                switch (op.kind) {
                case K::ctor_default: fresh = new (room) urls::url_view(); break;
                case K::copy_ctor: fresh = new (room) urls::url_view(const_cast<urls::url_view const&>(*j.v)); break;
                case K::move_ctor: fresh = new (room) urls::url_view(std::move(*j.v)); break;
                case K::copy_assign: *u.v = const_cast<urls::url_view const&>(*j.v); break;
                default: *u.v = std::move(*j.v); break;
                }
            });
            c.outcome(o);
            ++stats.checks;
            if (ctl.n_gnew || ctl.n_alloc) violate("C21.request", tag + "memory was requested to copy a view");
            if (o.st != St::ok) violate("C21.fails", tag + "copying a view threw " + o.exc);
            if (op.kind == K::ctor_default) { u.t = string_view(); u.m = M(); }
            else if (&u != &j) { u.t = j.t; u.m = j.m; }
            bool const moved = op.kind == K::move_ctor || op.kind == K::move_assign;
            if (moved && &u != &j) {               // what was moved from is given a new value before it is used again
                j.v.reset(new urls::url_view);
                j.t = string_view(); j.m = M();
                j.keep();
            }
            if (room) u.v.reset(fresh);            // the previous object goes after the copy was made
            u.keep();
            break;
        }
        default: break;
        }
        for (size_t i = 0; i < s.size(); ++i) {
            VSlot& x = s[i];
            auto who = tag + "view" + std::to_string(i) + " of " + quote(x.m.text()) + ": ";
            urls::url_view const& v = *x.v;
            Obs got;
            bool kept_ok = true, inside = true;
            std::string segs, pars;
            char const* lo = x.t.data(); char const* hi = lo + x.t.size();
            auto in = [&](string_view p) { if (!p.empty() && (p.data() < lo || p.data() + p.size() > hi)) inside = false; };
            got = observe(v);
            auto d = diff(got, expected(x.m), VIEW_SKIP);
            ++stats.checks;
            if (!d.empty()) violate("C21.parts", who + d);
            if (x.m.text().size() && v.data() != lo) violate("C21.refers", who + "data() is not the text it was given");
            for (auto p : { v.encoded_url(), v.encoded_origin(), v.scheme(), v.encoded_authority(), v.encoded_userinfo(), v.userinfo_part(), v.encoded_user(), v.encoded_password(), v.encoded_host_and_port(),
                v.encoded_host(), v.port(), v.port_part(), v.encoded_path(), v.encoded_query(), v.query_part(), v.encoded_fragment(), v.fragment_part() }) in(p);
            std::vector<std::string> sv;
            std::vector<std::pair<std::string, std::string>> pv;
            size_t limit = x.m.text().size() + 2;
            for (auto it = x.sb; it != x.se; ++it) { if (sv.size() > limit) { kept_ok = false; break; } in((*it).encoded_string()); sv.push_back(str(it->encoded_string())); }
            for (auto it = x.pb; it != x.pe; ++it) { if (pv.size() > limit) { kept_ok = false; break; } in((*it).encoded_key()); in(it->encoded_value()); pv.push_back({ str(it->encoded_key()), str(it->encoded_value()) }); }
            if (!inside) violate("C21.refers", who + "a part lies outside the text it was given");
            if (!kept_ok || seq_text(sv) != got.f[O_csegs] || par_text(pv) != got.f[O_cparams] || x.sb != v.segments().begin() || x.se != v.segments().end() || x.pb != v.params().begin() || x.pe != v.params().end())
                violate("C21.iterators", who + "iterators obtained earlier give " + quote(seq_text(sv)) + " and " + quote(par_text(pv)));
            c.state(got, (uint64_t)op.kind);
        }
        for (auto& t : texts) if (!t->intact()) violate("C21.written", tag + "the text of a view was written to: " + quote(t->was));
    }
}

}

void start_pristine() {
    int fd[2];
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, fd)) return;
    pid_t pid = fork();
    if (pid == 0) {
        close(fd[0]);
        std::string msg;
        while (recv_msg(fd[1], msg)) if (!send_msg(fd[1], in_child([&](int out) { serve(msg, out); }))) break;
        _exit(0);
    }
    close(fd[1]);
    if (pid > 0) zygote = fd[0]; else close(fd[0]);
}

RunResult execute(Plan const& p) {
    RunResult r;
    Ctx c(p);
    ctl.f = Fault{};
    ctl.exc = 0;
    ctl.serial = 0;
    ctl.err.clear();
    ctl.junk = (unsigned char)p.get("junk", 1);
    ctl.trace = FNV0;
    ++stats.runs;
    try {
        if (p.prop == "C01") run_c01(c);
        else if (p.prop == "C02") run_c02(c);
        else if (p.prop == "C03") run_c03(c);
        else if (p.prop == "C04") run_c04(c);
        else if (p.prop == "C05") run_c05(c);
        else if (p.prop == "C06") run_c06(c);
        else if (p.prop == "C07") run_c07(c);
        else if (p.prop == "C08") run_c08(c);
        else if (p.prop == "C09") run_c09(c);
        else if (p.prop == "C10") run_c10(c);
        else if (p.prop == "C11") run_c11(c);
        else if (p.prop == "C12") run_c12(c);
        else if (p.prop == "C14") run_c14(c);
        else if (p.prop == "C20") run_c20(c);
        else if (p.prop == "C21") run_c21(c);
        else { r.violated = true; r.label = "error"; r.what = "unknown property " + p.prop; }
    } catch (Violation const& v) {
        r.violated = true;
        r.label = v.label;
        r.what = v.what;
    }
    ctl.armed = false;
    r.trace = c.h;
    r.nontrivial = c.nontrivial;
    return r;
}

}
