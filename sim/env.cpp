// C17, C18, C22: library code in a hostile process environment (penv.cpp).
#include "world.hpp"
#include "perform.hpp"
#include "penv.hpp"
#include <algorithm>
namespace sim {
namespace {

struct Ctx {
    Plan const& p;
    uint64_t h = FNV0;
    bool nontrivial = false;
    size_t step = 0;
    penv::State env;
    explicit Ctx(Plan const& p_) : p(p_) {}
    std::string where(Op const& op) const {
        std::string e = std::string(penv::locale_names[env.loc]) + " locale";
        if (env.flip_at) e += std::string(", ") + penv::locale_names[env.flip_to] + " from question " + std::to_string(env.flip_at) + " on";
        return "step " + std::to_string(step) + " " + show(op) + " (" + e + "): ";
    }
    void note(std::string const& s) { h = fnv(h, s); }
    void note(uint64_t v) { h = (h ^ v) * 1099511628211ull; }
    void state(uint64_t v) { note(v); if (states && states->size() < 400000) states->insert(v); }
    void change(Op const& op) {
        env.loc = (int)((unsigned)op.i % penv::LOCALES);
        env.flip_at = op.u;
        env.flip_to = (int)((unsigned)op.i / penv::LOCALES % penv::LOCALES);
        env.noise = (uint64_t)(unsigned)op.j * 0x9E3779B97F4A7C15ull;
        ++stats.op_count[(int)op.kind];
        if (env.loc) count(std::string("environment: ") + penv::locale_names[env.loc] + " locale");
    }
    void count(std::string const& s) { if (xstats) ++stats.probes[s]; }
    // runs f in the current environment
    template<class F> void in(Op const& op, char const* label, F f) {
        penv::In e(env);
        uint64_t fl = penv::flips;
        f();
        char const* ch = e.out();
        if (penv::consults) count("calls which asked the environment something");
        if (penv::flips != fl) count("locale changed during a call");
        if (ch && penv::flips == fl) violate(label, where(op) + "the call changed " + ch);
        env.flip_at = 0;
        nontrivial |= env.loc != 0 || env.noise != 0;
    }
};

//---------------------------------------------------------------- C17
int known_scheme(std::string s) {
    if (s.size() > 5) return 0;
    for (char& c : s) if (c >= 'A' && c <= 'Z') c = (char)(c + 32);
    return s == "ftp" ? 1 : s == "file" ? 2 : s == "http" ? 3 : s == "https" ? 4 : s == "ws" ? 5 : s == "wss" ? 6 : 0;
}
void run_c17(Ctx& c) {
    World w(c.p, false);
    for (auto& op : c.p.ops) {
        ++c.step;
        if (op.kind == K::environ) { c.change(op); continue; }
        ++stats.checks;
        auto judge = [&](std::string const& text, urls::scheme got, bool special, urls::scheme again, std::string const& back, char const* what) {
            int k = known_scheme(text);
            if (got != id_of(k)) violate("C17.class", c.where(op) + what + quote(text) + " is classified as " + name_of(got) + ", it is " + scheme_names[k]);
            if (special != (k != 0)) violate("C17.special", c.where(op) + what + "is_special(" + quote(text) + ") is " + (special ? "true" : "false"));
            if (again != got) violate("C17.class", c.where(op) + what + quote(text) + " is classified as " + name_of(got) + " first and " + name_of(again) + " later");
            if (k && back != scheme_names[k]) violate("C17.name", c.where(op) + "to_string(" + name_of(got) + ") is " + quote(back));
            c.note((uint64_t)k); c.note(text);
            c.state(fnv(FNV0, text.substr(0, 6)) * 31 + (uint64_t)c.env.loc * 4 + (uint64_t)c.env.flip_to);
            if (k) c.count("known scheme classified"); else c.count("unknown scheme classified");
        };
        if (op.kind == K::read) {
            ++stats.ops; ++stats.op_count[(int)op.kind];
            urls::scheme got{}, again{}; bool special = false; std::string back;
            Arg a(op.a, op.j & 1);
            c.in(op, "C17.environment", [&] {
                guarded(Fault{}, [&](Outcome&) {
                    string_view s = a;
                    got = urls::string_to_scheme(s);
                    special = urls::is_special(s);
                    again = urls::string_to_scheme(s);
                    string_view n = urls::to_string(got);
                    Quiet q;
                    back.assign(n.data(), n.size());
                });
            });
            judge(op.a, got, special, again, back, "");
            if (!ctl.err.empty()) violate("C17.written", c.where(op) + ctl.err);
            // and every name back and forth
            int k = op.i % 7;
            std::string nm; urls::scheme r{};
            c.in(op, "C17.environment", [&] {
                string_view n = urls::to_string(id_of(k));
                nm.assign(n.data(), n.size());
                r = urls::string_to_scheme(n);
            });
            if (r != id_of(k)) violate("C17.name", c.where(op) + "to_string(" + name_of(id_of(k)) + ") gives " + quote(nm) + ", which is classified as " + name_of(r));
        } else {
            Outcome o;
            c.in(op, "C17.environment", [&] { o = w.exec(op, op.f); });
            c.note((uint64_t)o.st);
            urls::url_base& b = w.at(op.u);
            urls::scheme got{}, again{}; bool special = false; std::string back, text = str(b.scheme());
            c.in(op, "C17.environment", [&] {
                got = urls::string_to_scheme(b.scheme());
                special = urls::is_special(b.scheme());
                again = urls::string_to_scheme(b.scheme());
                auto n = urls::to_string(got);
                back.assign(n.data(), n.size());
            });
            judge(text, got, special, again, back, "scheme() ");
            if (op.kind == K::normalize_scheme || op.kind == K::normalize) {
                if (known_scheme(text) && text != back) violate("C17.name", c.where(op) + "the normalised scheme is " + quote(text) + ", its name is " + quote(back));
                for (char ch : text) if (ch >= 'A' && ch <= 'Z') violate("C17.name", c.where(op) + "the normalised scheme is " + quote(text));
            }
        }
    }
}

//---------------------------------------------------------------- C18
struct Err { int value; bool is_condition, equals; std::string message, name, cmessage; void const* cat; };
Err ask_error(int v, int other) {
    Err r;
    auto ec = urls::make_error_code((urls::error)v);
    r.value = ec.value();
    r.is_condition = ec == urls::condition::parse_error;
    if ((ec.default_error_condition() == urls::condition::parse_error) != r.is_condition) r.is_condition = !r.is_condition, r.value = -999;
    r.equals = ec == urls::make_error_code((urls::error)other);
    r.name = ec.category().name();
    r.cat = &ec.category();
    return r;
}
void run_c18(Ctx& c) {
    auto const cond0 = urls::make_error_condition(urls::condition::parse_error);
    std::string const cmsg = cond0.message();
    void const* const cat0 = &urls::make_error_code((urls::error)1).category();
    std::map<int, std::string> messages;
    for (auto& op : c.p.ops) if (op.kind == K::read && !messages.count(op.i)) messages[op.i] = urls::make_error_code((urls::error)op.i).message();
    for (int i = 1; i <= 15; ++i) messages[i] = urls::make_error_code((urls::error)i).message();
    std::map<std::string, std::string> texts;      // what() of each kind of exception
    World w(c.p, false);
    if (cond0.category().name() == std::string() || cmsg.empty()) violate("C18.message", "the condition has no name or message");
    for (auto& op : c.p.ops) {
        ++c.step;
        if (op.kind == K::environ) { c.change(op); continue; }
        ++stats.checks;
        if (op.kind == K::read) {
            ++stats.ops; ++stats.op_count[(int)op.kind];
            Err e;
            bool cond_same = false, code_is = false, self = false, other_cond = false;
            c.in(op, "C18.environment", [&] {
                e = ask_error(op.i, op.j);
                auto cd = urls::make_error_condition(urls::condition::parse_error);
                cond_same = cd == cond0 && &cd.category() == &cond0.category() && cd.value() == cond0.value();
                code_is = urls::make_error_code((urls::error)op.i) == cd;
                self = urls::make_error_code((urls::error)op.i) == (urls::error)op.i;
                other_cond = urls::make_error_code((urls::error)op.i) == urls::make_error_condition((urls::condition)(2 + (unsigned)op.j % 30));
            });
            std::string who = c.where(op) + "error " + std::to_string(op.i) + ": ";
            bool documented = op.i >= 1 && op.i <= 15;
            if (e.value != op.i) violate("C18.identity", who + "value() is " + std::to_string(e.value));
            if (e.cat != cat0) violate("C18.identity", who + "another category object than before");
            if (e.name.empty()) violate("C18.message", who + "the category has no name");
            if (!self || e.equals != (op.i == op.j)) violate("C18.identity", who + "compared with error " + std::to_string(op.j) + ": " + (e.equals ? "equal" : "not equal"));
            if (!cond_same) violate("C18.condition", who + "the condition parse_error is not the one obtained before");
            if (e.is_condition != documented || code_is != documented) violate("C18.condition", who + (e.is_condition ? "compares equal to the condition parse_error" : "does not compare equal to the condition parse_error"));
            if (other_cond) violate("C18.condition", who + "compares equal to a condition which does not exist");
            // the message, while memory is refused
            for (int pass = 0; pass < 2; ++pass) {
                std::string m;
                long live = ctl.live_gnew;
                Outcome o;
                c.in(op, "C18.environment", [&] {
                    o = guarded(pass ? Fault{} : op.f, [&](Outcome&) {
                        if (op.retry) { std::string x = urls::make_error_code((urls::error)op.i).message(); Quiet q; m = std::string(x.data(), x.size()); }
                        else { std::string x = urls::make_error_code((urls::error)op.i).default_error_condition().message(); Quiet q; m = std::string(x.data(), x.size()); }
                    });
                });
                c.note((uint64_t)o.st);
                if (o.st == St::nomem) {
                    if (pass) violate("C18.message", who + "message() failed");
                    c.count("message refused memory");
                } else if (o.st != St::ok) violate("C18.message", who + "message() threw " + o.exc);
                else {
                    std::string const& want = op.retry ? messages[op.i] : documented ? cmsg : messages[op.i];
                    if (m.empty() || m != want) violate("C18.message", who + "message() is " + quote(m) + ", before it was " + quote(want));
                }
                if (ctl.live_gnew != live) violate("C18.leak", who + "message() left memory behind");
            }
            c.note((uint64_t)op.i); c.note(e.is_condition);
            c.state((uint64_t)(unsigned)op.i * 64 + (uint64_t)c.env.loc * 8 + (uint64_t)op.f.kind);
        } else {
            // exceptions: the same text each time, also in copies which outlive the original
            Outcome o;
            std::string copy;
            c.in(op, "C18.environment", [&] {
                o = w.exec(op, op.f);
            });
            c.note((uint64_t)o.st); c.note(o.exc);
            if (o.st != St::rejected) continue;
            c.count("exception observed");
            if (o.what.empty()) violate("C18.what", c.where(op) + "what() of " + o.exc + " is empty");
            if (o.copied != o.what) violate("C18.what", c.where(op) + "what() of a copy of the " + o.exc + " is " + quote(o.copied) + ", of the original " + quote(o.what));
            auto& t = texts[o.exc + "/" + o.type];
            if (t.empty()) t = o.what;
            if (t != o.what) violate("C18.what", c.where(op) + "what() of " + o.exc + " is " + quote(o.what) + ", before it was " + quote(t));
        }
    }
}

//---------------------------------------------------------------- C22
std::string tell(Outcome const& o) { return o.st == St::ok ? "succeeds" : "throws " + o.type + " (" + o.what + ")"; }
// A call which resembles op: in between, somewhere else in the program, on other objects.
Op similar(Op op, uint64_t d) {
    std::string& a = op.a;
    if (a.empty()) { if (d & 1) a = "a"; return op; }
    size_t i = d / 8 % a.size(), k = d / 512 % a.size();
    switch (d % 8) {
    case 0: case 1: case 2: std::swap(a[i], a[k]); break;                       // the same characters in another order
    case 3: a[i] = "aZ0/?#:@%&="[k % 11]; break;
    case 4: if ((a[i] | 32) >= 'a' && (a[i] | 32) <= 'z') a[i] ^= 32; else a[i] ^= 1; break;
    case 5: a.resize(i); break;
    case 6: a += a.substr(i); break;
    default: break;                                                             // the very same
    }
    return op;
}
void run_c22(Ctx& c) {
    World w(c.p, false), t(c.p, true), z(c.p, true);
    for (auto& op : c.p.ops) {
        ++c.step;
        if (op.kind == K::environ) { c.change(op); continue; }
        ++stats.checks;
        Seen a, b;
        std::vector<Obs> x;
        penv::State again = c.env;
        bool first = (op.j & 2) != 0;                  // which world goes first
        uint64_t d = (fnv(FNV0, op.a) ^ (uint64_t)(unsigned)op.i * 0x9E3779B97F4A7C15ull ^ (uint64_t)(unsigned)op.j << 20) * 0xBF58476D1CE4E5B9ull >> 20;
        auto between = [&] {                           // what else happened in the process must not matter
            if (d % 3 == 0) return;
            c.count("another call in between");
            perform(z, similar(op, d / 3), z.env);
        };
        auto elsewhere = [&] {                         // at other addresses, between other bytes
            unsigned char const j = ctl.junk;
            ctl.twist = (unsigned char)(d >> 8); ctl.junk = (unsigned char)~j;
            b = perform(t, op, t.env);
            ctl.twist = 0; ctl.junk = j;
        };
        if (first) { elsewhere(); between(); }
        c.in(op, "C22.changed", [&] { a = perform(w, op, w.env); });
        if (!first) { between(); elsewhere(); }
        std::string tag = c.where(op);
        if (a.o.st != b.o.st || a.o.exc != b.o.exc || a.o.type != b.o.type || a.o.what != b.o.what || a.o.index != b.o.index || a.o.self != b.o.self)
            violate("C22.outcome", tag + "the call " + tell(a.o) + "; in the default environment it " + tell(b.o));
        if (a.value != b.value) violate("C22.value", tag + "the result is " + quote(a.value) + "; in the default environment it is " + quote(b.value));
        c.note((uint64_t)a.o.st); c.note(a.o.exc); c.note(a.value);
        again.noise ^= 77;
        c.env = again;
        c.in(op, "C22.changed", [&] { for (auto& s : w.slots) x.push_back(observe(s.h->b())); });
        for (size_t i = 0; i < x.size(); ++i) {
            auto d = diff(x[i], observe(t.slots[i].h->b()));
            if (!d.empty()) violate("C22.state", tag + "url" + std::to_string(i) + " differs from the one in the default environment: " + d);
            c.state(hash(x[i]) * 4 + (uint64_t)again.loc);
        }
        c.env.flip_at = 0;
    }
}

}

void start_pristine() {}
RunResult execute(Plan const& p) {
    RunResult r;
    Ctx c(p);
    ctl.f = Fault{};
    ctl.exc = 0;
    ctl.serial = 0;
    ctl.err.clear();
    ctl.junk = (unsigned char)p.get("junk", 1);
    ctl.trace = FNV0;
    ++stats.runs;
    try {
        if (p.prop == "C17") run_c17(c);
        else if (p.prop == "C18") run_c18(c);
        else if (p.prop == "C22") run_c22(c);
        else { r.violated = true; r.label = "error"; r.what = "unknown property " + p.prop; }
    } catch (Violation const& v) {
        r.violated = true;
        r.label = v.label;
        r.what = v.what;
    }
    penv::on = false;
    ctl.armed = false;
    r.trace = c.h;
    r.nontrivial = c.nontrivial;
    return r;
}

}
