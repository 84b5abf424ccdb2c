// C13: caller threads under the simulator's scheduler. Provides execute() for main.cpp.
#include "reads.hpp"
#include "tsrt.hpp"
#include <boost/url/scheme.hpp>
#include <csignal>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
namespace sim {
namespace {

constexpr int MAXOPS = 256;
struct OpRes { uint64_t h; int ran; char text[220]; };
struct Shared {                                  // written by child processes
    ts_report rep;
    uint64_t ops, requests, rejected, nomem, fired[6], budget, maxsize, pool;
    uint64_t op_count[(int)K::COUNT];
    int finished;
    OpRes par[MAXOPS], solo[MAXOPS];
    char err[200];
    char hand[300];                              // what was wrong with something handed to another thread
};
Shared* sh;
Plan const* plan;
SimUrl const* shared_url;
urls::url const* shared_heap_url;
urls::url_view const* shared_view;

// what a thread leaves to others: some errors and a URL
struct Legacy { urls::error_code codes[8]; int values[8]; int n; urls::url* url; uint64_t h; };
Legacy legacy[TS_MAX];
thread_local Legacy* mine;

uint64_t misc(Op const& op) {                    // functions without a URL
    string_view a(op.a.data(), op.a.size());
    auto ec = urls::make_error_code((urls::error)(op.i % 17));
    if (mine && mine->n < 8) { mine->codes[mine->n] = ec; mine->values[mine->n++] = op.i % 17; }
    switch (op.i / 17 % 8) {
    case 0: { std::string m = ec.message(); return hv(string_view(m.data(), m.size())); }
    case 1: return hv(ec.category().name());
    case 2: return (ec == urls::condition::parse_error) * 2 + (ec == urls::make_error_code((urls::error)(op.j % 17)));
    case 3: { auto c = ec.default_error_condition(); std::string m = c.message(); return hv(string_view(m.data(), m.size())) * 3 + (c == urls::condition::parse_error); }
    case 4: { auto c = urls::make_error_condition(urls::condition::parse_error); std::string m = c.message(); return hv(string_view(m.data(), m.size())) * 3 + (c == ec) + hv(c.category().name()); }
    case 5: return (uint64_t)urls::string_to_scheme(a);
    case 6: return hv(urls::to_string((urls::scheme)(op.i % 7))) + urls::is_special(a);
    default: return (uint64_t)urls::string_to_scheme(urls::to_string((urls::scheme)(op.i % 7)));
    }
}
template<class U> uint64_t do_read(U& u, Op const& op, World& w) {
    string_view key(op.a.data(), op.a.size());
    if (op.kind == K::read) {
        int k = op.i % (NCOMMON + 6);
        switch (k - NCOMMON) {
        default: return one_read(u, k, key);
        case 0: { auto s = u.params()[key]; return hv(string_view(s.data(), s.size())); }
        case 1: case 2: {                       // a copy which is then modified
            SimUrl c(u.encoded_url(), SimAlloc<char>(w.env, 9));
            if (k & 1) c.set_scheme("x").set_encoded_query("q"); else c.set_host("h").set_port(80);
            return hv(c.encoded_url());
        }
        case 3: { urls::url_view v(u.encoded_url()); return one_read(v, op.j % NCOMMON, key) * 3; }
        case 4: { urls::url_view v(key); return one_read(v, op.j % NCOMMON, key) * 5; }      // often not a URL
        case 5: { urls::url c(key); return one_read(c, op.j % NCOMMON, key) * 7; }
        }
    }
    if (op.kind == K::lookup) return one_read(u, 26 + op.i % 3, key);
    Op o = op;
    { Quiet q; o.j = op.j / 4; }
    bool done = false;
    if (op.i / 10 % 2) { auto s = decode_call(u, o, SimAlloc<char>(w.env, 9), done); return hv(string_view(s.data(), s.size())) * 2 + done; }
    auto s = decode_call(u, o, std::allocator<char>(), done);
    return hv(string_view(s.data(), s.size())) * 2 + done;
}
// adds this thread's counters to the common ones; bookkeeping of the simulator, not observed by it
__attribute__((no_sanitize("thread"), noinline)) void account() {
    if (!ctl.err.empty() && !sh->err[0]) std::snprintf(sh->err, sizeof sh->err, "%s", ctl.err.c_str());
    sh->ops += stats.ops; sh->requests += stats.requests; sh->rejected += stats.rejected; sh->nomem += stats.nomem;
    for (int i = 0; i < 6; ++i) sh->fired[i] += stats.fired[i];
    sh->pool += stats.fired_pool; sh->maxsize += stats.fired_maxsize;
    for (int i = 0; i < (int)K::COUNT; ++i) sh->op_count[i] += stats.op_count[i];
}
void program(int t, OpRes* res) {
    ts_bind(&ctl.armed);
    mine = &legacy[t];
    Plan sub;
    sub.cfg["slots"] = 2;
    sub.cfg["pool"] = plan->get("pool");
    if (plan->cfg.count("maxsize")) sub.cfg["maxsize"] = plan->get("maxsize");
    for (int i = 0; i < 2; ++i) sub.cfg["mem" + std::to_string(i)] = plan->get("mem" + std::to_string(2 * t + i));
    ctl.junk = (unsigned char)plan->get("junk", 0xA5);
    ctl.err.reserve(300);
    {
        World w(sub, false);
        for (size_t k = 0; k < plan->ops.size() && k < MAXOPS; ++k) {
            Op op = plan->ops[k];
            if (op.kind == K::preempt || op.u >= 90 || op.u / 2 != t) continue;
            op.u %= 2;
            Outcome o;
            uint64_t val = 0;
            bool rd = op.kind == K::read || op.kind == K::decode || op.kind == K::lookup;
            if (rd) {
                ++stats.ops;
                ++stats.op_count[(int)op.kind];
                o = guarded(op.f, [&](Outcome&) {
                    switch (op.j % 4) {
                    case 0: val = do_read(w.at(op.u), op, w); break;
                    case 1:
                        if (op.kind == K::read && op.i % 11 == 10) { urls::url c(*shared_heap_url); c.set_fragment("f"); val = hv(c.encoded_url()); break; }
                        val = do_read(*shared_url, op, w);
                        break;
                    case 2: val = do_read(*shared_view, op, w); break;
                    default: if (op.kind == K::read) val = misc(op); else val = do_read(w.at(op.u), op, w); break;
                    }
                });
                if (o.st != St::ok) val = 0;
            }
            else o = w.exec(op, op.f);
            urls::url_base& b = w.at(op.u);
            Obs ob = observe(b);
            uint64_t h = hash(ob);
            h = fnv(h, o.exc); h = fnv(h, o.what);
            h = (h ^ (uint64_t)o.st) * 31 + (uint64_t)o.index * 7 + o.self + val * 1099511628211ull + b.capacity();
            std::string txt = (o.st == St::ok ? "ok" : o.st == St::nomem ? "no memory: " + o.exc : "rejected: " + o.exc) + " " + o.what.substr(0, 30) + " value " + std::to_string(val % 1000003) + " url " + quote(ob.f[O_text]);
            res[k].h = h;
            res[k].ran = 1;
            std::snprintf(res[k].text, sizeof res[k].text, "%s", txt.c_str());
        }
        guarded(Fault{}, [&](Outcome&) { mine->url = new urls::url(w.at(0).encoded_url()); });
        if (mine->url) mine->h = hash(observe(*mine->url));
    }
    account();
}
// the threads have ended; what they left is used and destroyed by this one
std::string inherit(int nt) {
    for (int a = 0; a < nt; ++a) {
        Legacy& x = legacy[a];
        std::string who = "thread " + std::to_string(a);
        for (int i = 0; i < x.n; ++i) {
            std::string what = "error " + std::to_string(x.values[i]) + " of " + who;
            if (x.codes[i] != urls::make_error_code((urls::error)x.values[i])) return what + " differs from the same error made after it has ended";
            if (x.codes[i].message() != urls::make_error_code((urls::error)x.values[i]).message()) return what + " has another message after it has ended";
            for (int b = a; b < nt; ++b)
                for (int j = 0; j < legacy[b].n; ++j)
                    if ((x.codes[i] == legacy[b].codes[j]) != (x.values[i] == legacy[b].values[j])) return what + " and error " + std::to_string(legacy[b].values[j]) + " of thread " + std::to_string(b) + " do not compare as they should";
        }
        if (!x.url) continue;
        if (hash(observe(*x.url)) != x.h) return "the URL of " + who + " changed when it ended";
        try {
            urls::url u(std::move(*x.url));
            delete x.url;
            x.url = nullptr;
            u.set_fragment(std::string(40, 'f'));
            if (u.fragment() != std::string(40, 'f')) return "the URL of " + who + " cannot be modified after it has ended";
            u.set_encoded_url("");
        } catch (std::exception const& e) { return "the URL of " + who + " cannot be used after it has ended: " + e.what(); }
    }
    return "";
}
void par_body(int t) { program(t, sh->par); }

void on_prof(int) { _exit(78); }
template<class Fn> int in_child(Fn fn) {
    sh->finished = 0;
    pid_t pid = fork();
    if (pid == 0) {
        std::signal(SIGPROF, on_prof);
        struct itimerval z = {};
        z.it_value.tv_sec = 20;
        setitimer(ITIMER_PROF, &z, nullptr);
        alarm(120);
        stats = Stats();
        fn();
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0) {}
    return st;
}
void shared_objects() {
    static Env env;
    default_env = &env;
    static std::string text[2];
    for (auto& op : plan->ops) if (op.kind != K::preempt && (op.u == 90 || op.u == 91)) text[op.u - 90] = op.a;
    SimUrl* u = new SimUrl(SimAlloc<char>(env, 50));
    if (!text[0].empty()) try { u->set_encoded_url(string_view(text[0].data(), text[0].size())); } catch (std::exception const&) {}
    shared_url = u;
    auto hu = new urls::url();
    if (!text[0].empty()) try { hu->set_encoded_url(string_view(text[0].data(), text[0].size())); } catch (std::exception const&) {}
    shared_heap_url = hu;
    urls::url_view* v = nullptr;
    if (!text[1].empty()) try { v = new urls::url_view(string_view(text[1].data(), text[1].size())); } catch (std::exception const&) {}
    if (!v) v = new urls::url_view();
    shared_view = v;
}
}

void start_pristine() {}
RunResult execute(Plan const& p) {
    if (!sh) sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::memset(sh, 0, sizeof *sh);
    plan = &p;
    ++stats.runs;
    int nt = (int)p.get("threads", 2);
    if (nt < 1) nt = 1;
    if (nt > TS_MAX) nt = TS_MAX;
    std::vector<ts_switch> sw;
    for (auto& o : p.ops) if (o.kind == K::preempt) sw.push_back({ o.u, o.i, o.j });
    RunResult r;
    auto bad = [&](std::string label, std::string what) { r.violated = true; r.label = std::move(label); r.what = std::move(what); };
    auto died = [&](int st, char const* where) {
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
        if ((WIFEXITED(st) && WEXITSTATUS(st) == 78) || (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM)) bad("hang", std::string("the run did not finish ") + where);
        else bad("crash", std::string("the process died ") + where + (WIFSIGNALED(st) ? ": signal " + std::to_string(WTERMSIG(st)) : ": code " + std::to_string(WEXITSTATUS(st))));
        return true;
    };
    // the threads together, in a fresh process
    int st = in_child([&] {
        shared_objects();
        ts_run(nt, par_body, sw.data(), (int)sw.size(), &sh->rep);
        if (!sh->rep.label) std::snprintf(sh->hand, sizeof sh->hand, "%s", inherit(nt).c_str());
        sh->finished = 1;
    });
    stats.ops += sh->ops; stats.requests += sh->requests; stats.rejected += sh->rejected; stats.nomem += sh->nomem;
    for (int i = 0; i < 6; ++i) stats.fired[i] += sh->fired[i];
    stats.fired_pool += sh->pool; stats.fired_maxsize += sh->maxsize;
    for (int i = 0; i < (int)K::COUNT; ++i) stats.op_count[i] += sh->op_count[i];
    if (sh->rep.label) { bad(sh->rep.label == 1 ? "C13.race" : "C13.deadlock", sh->rep.text); return r; }
    if (died(st, "while the threads ran together")) return r;
    if (sh->hand[0]) { bad("C13.handover", sh->hand); return r; }
    // each thread alone, one after the other
    st = in_child([&] { shared_objects(); for (int t = 0; t < nt; ++t) { stats = Stats(); ctl = Ctl(); program(t, sh->solo); } });
    if (died(st, "while a thread ran alone")) return r;
    bool same = true;
    for (size_t k = 0; k < p.ops.size() && k < MAXOPS; ++k) if (sh->par[k].h != sh->solo[k].h || sh->par[k].ran != sh->solo[k].ran) same = false;
    if (!same) {
        // what one thread leaves behind is not the question: each in a process of its own
        std::memset(sh->solo, 0, sizeof sh->solo);
        for (int t = 0; t < nt; ++t) {
            st = in_child([&] { shared_objects(); program(t, sh->solo); });
            if (died(st, "while a thread ran alone")) return r;
        }
    }
    uint64_t tr = FNV0;
    for (size_t k = 0; k < p.ops.size() && k < MAXOPS; ++k) {
        OpRes &a = sh->par[k], &b = sh->solo[k];
        if (!a.ran && !b.ran) continue;
        ++stats.checks;
        tr = (tr ^ a.h) * 1099511628211ull;
        if (a.h != b.h || a.ran != b.ran) {
            bad("C13.result", "call " + std::to_string(k) + " " + show(p.ops[k]) + " of thread " + std::to_string(p.ops[k].u / 2) + " gave " + a.text + " together with the other threads, but " + b.text + " alone");
            return r;
        }
    }
    r.trace = (tr ^ sh->rep.sched) * 1099511628211ull;
    r.nontrivial = sh->rep.switches > 0;
    if (states) states->insert(sh->rep.sched);
    if (xstats) {
        auto& x = *xstats;
        x["preemptions"] += sh->rep.switches;
        x["scheduling_points"] += sh->rep.points;
        x["shared_accesses"] += sh->rep.hot;
        x["threads_run"] += (uint64_t)nt;
    }
    return r;
}

}
