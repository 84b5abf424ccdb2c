// C23: calls made while another call of the same thread is in progress.
#include "perform.hpp"
#include <exception>
namespace sim {
namespace {

enum Where { asked, returned, handler, unwinding, WHERES };
char const* const where_names[] = { "a request for memory", "the return of memory", "the handling of its exception", "the unwinding of its exception" };

struct Node {
    Op op;
    int lane = 0;                     // the pair of worlds the call works on
    bool shares = false;              // reads the URL which the interrupted call reads
    int where = 0; long at = 0;       // when the calls below happen
    std::vector<Node> kids;
    bool interrupted = false;
    size_t step = 0;
    Seen want, got;
    std::vector<Obs> xwant, xgot;
};

bool reads_only(K k) { return k == K::decode || k == K::lookup || k == K::read; }

struct Run {
    Plan const& p;
    std::vector<std::unique_ptr<World>> real, ref;
    std::vector<std::unique_ptr<Env>> rmem, fmem;
    int depth;
    uint64_t h = FNV0;
    bool nontrivial = false;
    explicit Run(Plan const& p_) : p(p_), depth((int)std::min(12l, std::max(1l, p_.get("depth", 3)))) {
        for (int i = 0; i < depth; ++i) {
            real.emplace_back(new World(p, false));
            ref.emplace_back(new World(p, false));
            rmem.emplace_back(new Env);
            fmem.emplace_back(new Env);
        }
    }

    // the plan as a tree: "preempt" says when the next j entries interrupt the call which follows it
    Node parse(size_t& i, size_t end, int lane) {
        Op const* pre = nullptr;
        while (p.ops[i].kind == K::preempt && i + 1 < end) pre = &p.ops[i++];
        Node n;
        n.op = p.ops[i];
        n.lane = lane;
        n.step = ++i;
        if (n.op.kind == K::preempt) { n.op = Op(); n.op.kind = K::lookup; }
        if (pre && lane + 1 < depth) {
            n.where = (int)((unsigned)pre->u % WHERES);
            n.at = 1 + (long)((unsigned)pre->i % 64);
            size_t stop = std::min(end, i + (size_t)((unsigned)pre->j % 16));
            while (i < stop) n.kids.push_back(parse(i, stop, lane + 1));
        }
        return n;
    }

    // reading the very URL which the interrupted call only reads is in order as well
    void share(Node& n) const {
        int own = -1;
        if (reads_only(n.op.kind)) own = n.op.u;
        else if ((n.op.kind == K::copy_ctor || n.op.kind == K::copy_assign) && real[0]->idx(n.op.u) != real[0]->idx(n.op.j)) own = n.op.j;
        for (auto& k : n.kids) {
            if (own >= 0 && !k.op.retry && reads_only(k.op.kind)) { k.shares = true; k.op.u = own; }
            share(k);
        }
    }

    static Seen alone(World& w, Env& mem, Op const& op) {
        default_env = &w.env;
        return perform(w, op, mem, op.f);
    }
    static void look(World& w, Node const& n, std::vector<Obs>& out) {
        Ctl const c = ctl;
        ctl.armed = false;
        if (n.shares) out.push_back(observe(w.at(n.op.u)));        // the others may be half way through a change
        else for (auto& s : w.slots) out.push_back(observe(s.h->b()));
        ctl = keep(c);
    }
    static Ctl keep(Ctl c) { c.err = ctl.err; c.live_gnew = ctl.live_gnew; return c; }

    void reference(Node& n, int lane) {
        n.want = alone(*ref[lane], *fmem[n.lane], n.op);
        look(*ref[lane], n, n.xwant);
        for (auto& k : n.kids) reference(k, k.shares ? lane : k.lane);
    }

    struct Frame { Run* run; Node* node; int lane; long seen; bool done; Frame* up; };
    static Frame* top;
    static void hook(int where) {
        Frame* f = top;
        if (!f || f->done || where != f->node->where || ++f->seen != f->node->at) return;
        f->done = true;
        f->node->interrupted = true;
        Ctl const c = ctl;
        Env* const d = default_env;
        ctl.armed = false;
        for (auto& k : f->node->kids) f->run->nested(k, k.shares ? f->lane : k.lane);
        top = f;
        ctl = keep(c);
        default_env = d;
        f->run->nontrivial = true;
        if (xstats) ++stats.probes[std::string("calls made during ") + where_names[where]];
        if (xstats && f->up) ++stats.probes["calls made during a call made during a call"];
        int deep = 0;
        for (Frame* g = f; g; g = g->up) ++deep;
        if (xstats && deep > 4) ++stats.probes["calls more than four levels deep"];
    }
    void nested(Node& n, int lane) {
        Frame f{ this, &n, lane, 0, n.kids.empty(), top };
        top = &f;
        n.got = alone(*real[lane], *rmem[n.lane], n.op);
        top = f.up;
        look(*real[lane], n, n.xgot);
        if (!f.done) for (auto& k : n.kids) nested(k, k.shares ? lane : k.lane);
    }

    static std::string tell(Outcome const& o) { return o.st == St::ok ? "succeeds" : "throws " + o.type + o.exc + " (" + o.what + ")"; }
    void compare(Node const& n, Node const* up) {
        ++stats.checks;
        std::string tag = "step " + std::to_string(n.step) + " " + show(n.op);
        if (up && up->interrupted) tag += std::string(", made during ") + where_names[up->where] + " of step " + std::to_string(up->step) + " " + show(up->op);
        if (n.interrupted) tag += std::string(", interrupted during ") + where_names[n.where];
        tag += ": ";
        Outcome const &a = n.got.o, &b = n.want.o;
        if (a.st != b.st || a.exc != b.exc || a.type != b.type || a.what != b.what || a.index != b.index || a.self != b.self || std::strcmp(a.walk, b.walk))
            violate("C23.outcome", tag + "the call " + tell(a) + "; alone it " + tell(b));
        if (n.got.value != n.want.value) violate("C23.value", tag + "the result is " + quote(n.got.value) + "; alone it is " + quote(n.want.value));
        h = fnv(h, n.got.value); h = fnv(h, a.exc);
        h = (h ^ (uint64_t)n.interrupted) * 1099511628211ull;
        for (size_t i = 0; i < n.xgot.size(); ++i) {
            auto d = diff(n.xgot[i], n.xwant[i]);
            if (!d.empty()) violate("C23.state", tag + "url" + std::to_string(i) + " differs from what it is without such calls: " + d);
            uint64_t v = hash(n.xgot[i]) * 16 + (uint64_t)(n.interrupted ? n.where + 1 : 0);
            h = (h ^ v) * 1099511628211ull;
            if (states && states->size() < 400000) states->insert(v);
        }
        for (auto& k : n.kids) compare(k, &n);
    }

    void go() {
        for (size_t i = 0; i < p.ops.size();) {
            Node n = parse(i, p.ops.size(), 0);
            share(n);
            reference(n, 0);
            nested(n, 0);
            compare(n, nullptr);
            if (!ctl.err.empty()) violate("C23.misuse", "step " + std::to_string(n.step) + " " + show(n.op) + ": " + ctl.err);
        }
        for (auto& w : real) w->env.sweep();
        for (auto& m : rmem) m->sweep();
        if (!ctl.err.empty()) violate("C23.misuse", "at the end: " + ctl.err);
    }
};
Run::Frame* Run::top = nullptr;

}

void start_pristine() {}
RunResult execute(Plan const& p) {
    RunResult r;
    ctl.f = Fault{};
    ctl.exc = (int)p.get("exc", 0);
    ctl.serial = 0;
    ctl.err.clear();
    ctl.junk = (unsigned char)p.get("junk", 1);
    ctl.trace = FNV0;
    ++stats.runs;
    Run::top = nullptr;
    ctl.hook = Run::hook;
    try {
        Run run(p);
        try {
            if (p.prop == "C23") run.go();
            else { r.violated = true; r.label = "error"; r.what = "unknown property " + p.prop; }
        } catch (Violation const& v) {
            r.violated = true;
            r.label = v.label;
            r.what = v.what;
        }
        r.trace = run.h;
        r.nontrivial = run.nontrivial;
        ctl.hook = nullptr;
    } catch (...) { r.violated = true; r.label = "error"; r.what = "exception"; }
    ctl.hook = nullptr;
    ctl.armed = false;
    return r;
}

}
