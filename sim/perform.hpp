// Calls of any kind with everything they return (C22, C23).
#pragma once
#include "world.hpp"
#include "reads.hpp"
#include <boost/url/scheme.hpp>
namespace sim {
namespace {
urls::scheme id_of(int k) {
    static urls::scheme const v[] = { urls::scheme::unknown, urls::scheme::ftp, urls::scheme::file, urls::scheme::http, urls::scheme::https, urls::scheme::ws, urls::scheme::wss };
    return v[k];
}
char const* const scheme_names[] = { "unknown", "ftp", "file", "http", "https", "ws", "wss" };
std::string name_of(urls::scheme s) { for (int i = 0; i < 7; ++i) if (s == id_of(i)) return scheme_names[i]; return "scheme(" + std::to_string((int)s) + ")"; }

struct Seen { Outcome o; std::string value; };
// One call of any kind on a world; decoded strings live in mem.
inline Seen perform(World& w, Op const& op, Env& mem, Fault const& f = Fault{}) {
    Seen s;
    urls::url_base& b = w.at(op.u);
    if (op.kind == K::read) {
        ++stats.ops; ++stats.op_count[(int)op.kind];
        Arg a(op.a, op.j & 1);
        s.o = guarded(f, [&](Outcome&) {
            string_view t = a;
            if (op.i % 2) {                                   // a view
                urls::url_view v(t);
                Quiet q;
                Obs ob = observe(v);
                for (auto& f : ob.f) { s.value += f; s.value += '\n'; }
            } else {
                auto sc = urls::string_to_scheme(t);
                bool sp = urls::is_special(t);
                auto ec = urls::make_error_code((urls::error)(op.i / 2 % 18));
                std::string m = ec.message();
                Quiet q;
                s.value = name_of(sc) + (sp ? " special " : " ") + m;
            }
        });
    }
    else if (op.kind == K::lookup) {
        ++stats.ops; ++stats.op_count[(int)op.kind];
        Arg a(op.a, op.j & 1);
        s.o = guarded(f, [&](Outcome&) {
            uint64_t h = 0;
            for (int k = 0; k < NCOMMON; ++k) h = h * 31 + (op.i & 1 ? one_read(const_cast<urls::url_base const&>(b), k, a) : one_read_url(b, k, a));
            h = h * 31 + one_read_url(b, 34, a);
            Quiet q;
            s.value = std::to_string(h);
        });
    }
    else if (op.kind == K::decode) {
        ++stats.ops; ++stats.op_count[(int)op.kind];
        s.o = guarded(f, [&](Outcome&) {
            bool done = false;
            if (op.j & 1) { auto x = decode_call(b, op, std::allocator<char>(), done); Quiet q; s.value.assign(x.data(), x.size()); }
            else { auto x = decode_call(const_cast<urls::url_base const&>(b), op, SimAlloc<char>(mem, 5), done); Quiet q; s.value.assign(x.data(), x.size()); }
        });
    }
    else s.o = w.exec(op, f);
    return s;
}
}
}
