// Independent reference: RFC 3986 grammar and the documented effect of each operation.
#include "core.hpp"
#include <cstring>
namespace sim {

std::string M::authority() const {
    std::string r;
    if (at) { r += user; if (colon) r += ":" + pw; r += "@"; }
    r += host;
    if (port_p) r += ":" + port;
    return r;
}
std::string M::origin() const {
    std::string r;
    if (scheme_p) r += scheme + ":";
    if (auth) r += "//" + authority();
    return r;
}
std::string M::text() const {
    std::string r = origin() + path;
    if (query_p) r += "?" + query;
    if (frag_p) r += "#" + frag;
    return r;
}

namespace ref {

static bool alpha(unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static bool digit(unsigned char c) { return c >= '0' && c <= '9'; }
static int hexv(unsigned char c) {
    if (digit(c)) return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}
static bool plain_ok(unsigned char c, char const* extra) {
    if (!c) return false;
    return alpha(c) || digit(c) || std::strchr("-._~", c) || std::strchr("!$&'()*+,;=", c) || std::strchr(extra, c);
}
bool chars_ok(std::string const& s, char const* extra) {
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '%') {
            if (i + 2 >= s.size()) return false;
            if (hexv(s[i + 1]) < 0 || hexv(s[i + 2]) < 0) return false;
            i += 2;
        } else if (!plain_ok(s[i], extra)) return false;
    }
    return true;
}
std::string pct_encode(std::string const& s, char const* extra) {
    static char const H[] = "0123456789ABCDEF";
    std::string r;
    for (unsigned char c : s) {
        if (plain_ok(c, extra)) r += (char)c;
        else { r += '%'; r += H[c >> 4]; r += H[c & 15]; }
    }
    return r;
}
std::string pct_decode(std::string const& s) {
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '%' && i + 2 < s.size()) { r += (char)(hexv(s[i + 1]) * 16 + hexv(s[i + 2])); i += 2; }
        else r += s[i];
    }
    return r;
}
bool valid_scheme(std::string const& s) {
    if (s.empty() || !alpha(s[0])) return false;
    for (unsigned char c : s) if (!c || !(alpha(c) || digit(c) || std::strchr("+-.", c))) return false;
    return true;
}
static std::vector<std::string> split(std::string const& s, char c) {
    std::vector<std::string> v(1);
    for (char x : s) if (x == c) v.emplace_back(); else v.back() += x;
    return v;
}
bool is_ipv4(std::string const& s) {
    auto v = split(s, '.');
    if (v.size() != 4) return false;
    for (auto& o : v) {
        if (o.empty() || o.size() > 3) return false;
        for (unsigned char c : o) if (!digit(c)) return false;
        if (o.size() > 1 && o[0] == '0') return false;
        if (std::stoi(o) > 255) return false;
    }
    return true;
}
// count 16-bit groups of a colon separated list; the last item may be an IPv4 address when allowed
static int groups(std::string const& s, bool v4) {
    if (s.empty()) return 0;
    auto v = split(s, ':');
    int n = 0;
    for (size_t i = 0; i < v.size(); ++i) {
        if (v4 && i + 1 == v.size() && v[i].find('.') != std::string::npos) {
            if (!is_ipv4(v[i])) return -1;
            n += 2;
            continue;
        }
        if (v[i].empty() || v[i].size() > 4) return -1;
        for (unsigned char c : v[i]) if (hexv(c) < 0) return -1;
        ++n;
    }
    return n;
}
bool is_ipv6(std::string const& s) {
    auto p = s.find("::");
    if (p == std::string::npos) return groups(s, true) == 8;
    auto a = s.substr(0, p), b = s.substr(p + 2);
    if (b.find("::") != std::string::npos) return false;
    if (!b.empty() && b[0] == ':') return false;
    int x = groups(a, false), y = groups(b, true);
    return x >= 0 && y >= 0 && x + y <= 7;
}
bool is_ipvfuture(std::string const& s) {
    if (s.size() < 4 || (s[0] != 'v' && s[0] != 'V')) return false;
    auto d = s.find('.');
    if (d == std::string::npos || d < 2 || d + 1 >= s.size()) return false;
    for (size_t i = 1; i < d; ++i) if (hexv(s[i]) < 0) return false;
    for (size_t i = d + 1; i < s.size(); ++i) if (!plain_ok(s[i], ":")) return false;
    return true;
}
HostType host_type(std::string const& h) {
    if (h.empty()) return none;
    if (h[0] == '[') {
        auto in = h.substr(1, h.size() - 2);
        return is_ipv6(in) ? ipv6 : ipvfuture;
    }
    return is_ipv4(h) ? ipv4 : name;
}
static bool host_ok(std::string const& h) {
    if (!h.empty() && h[0] == '[') {
        if (h.size() < 2 || h.back() != ']') return false;
        auto in = h.substr(1, h.size() - 2);
        return is_ipv6(in) || is_ipvfuture(in);
    }
    return chars_ok(h, "");
}
bool parse_authority(std::string const& s, M& m) {
    m.clear_auth();
    m.auth = true;
    std::string rest = s;
    auto at = s.find('@');
    if (at != std::string::npos) {
        auto ui = s.substr(0, at);
        rest = s.substr(at + 1);
        if (!chars_ok(ui, ":")) return false;
        m.at = true;
        auto c = ui.find(':');
        m.user = ui.substr(0, c);
        if (c != std::string::npos) { m.colon = true; m.pw = ui.substr(c + 1); }
    }
    size_t hend;
    if (!rest.empty() && rest[0] == '[') {
        hend = rest.find(']');
        if (hend == std::string::npos) return false;
        ++hend;
    } else {
        hend = rest.find(':');
        if (hend == std::string::npos) hend = rest.size();
    }
    m.host = rest.substr(0, hend);
    auto tail = rest.substr(hend);
    if (!host_ok(m.host)) return false;
    if (!tail.empty()) {
        if (tail[0] != ':') return false;
        m.port_p = true;
        m.port = tail.substr(1);
        for (unsigned char c : m.port) if (!digit(c)) return false;
    }
    return true;
}
bool path_ok(std::string const& p, bool scheme, bool authority) {
    if (!chars_ok(p, ":@/")) return false;
    if (p.empty()) return true;
    if (authority) return p[0] == '/';
    if (p[0] == '/') return p.size() < 2 || p[1] != '/';
    if (!scheme && p.substr(0, p.find('/')).find(':') != std::string::npos) return false;
    return true;
}
std::optional<M> parse(std::string const& s0) {
    M m;
    std::string s = s0;
    auto h = s.find('#');
    if (h != std::string::npos) { m.frag_p = true; m.frag = s.substr(h + 1); s.resize(h); }
    auto q = s.find('?');
    if (q != std::string::npos) { m.query_p = true; m.query = s.substr(q + 1); s.resize(q); }
    auto c = s.find_first_of(":/");
    if (c != std::string::npos && s[c] == ':' && valid_scheme(s.substr(0, c))) {
        m.scheme_p = true; m.scheme = s.substr(0, c); s = s.substr(c + 1);
    }
    if (s.compare(0, 2, "//") == 0) {
        auto e = s.find('/', 2);
        if (e == std::string::npos) e = s.size();
        if (!parse_authority(s.substr(2, e - 2), m)) return {};
        s = s.substr(e);
    }
    m.path = s;
    if (!path_ok(m.path, m.scheme_p, m.auth)) return {};
    if (!chars_ok(m.query, ":@/?") || !chars_ok(m.frag, ":@/?")) return {};
    return m;
}
bool split_path(std::string const& p, std::vector<std::string>& out) {
    out.clear();
    if (p.empty()) return false;
    bool abs = p[0] == '/';
    out = split(abs ? p.substr(1) : p, '/');
    return abs;
}
std::string join_path(bool abs, std::vector<std::string> const& v) {
    std::string r;
    for (size_t i = 0; i < v.size(); ++i) { if (i || abs) r += '/'; r += v[i]; }
    return r;
}
std::vector<std::pair<std::string, std::string>> split_query(M const& m) {
    std::vector<std::pair<std::string, std::string>> r;
    if (!m.query_p) return r;
    for (auto& it : split(m.query, '&')) {
        auto e = it.find('=');
        if (e == std::string::npos) r.push_back({ it, "" });
        else r.push_back({ it.substr(0, e), it.substr(e + 1) });
    }
    return r;
}
static bool mentions_ipvfuture(std::string const& s) {
    for (size_t i = 0; i + 1 < s.size(); ++i)
        if (s[i] == '[' && (s[i + 1] == 'v' || s[i + 1] == 'V')) return true;
    return false;
}

Result apply(M const& m0, Op const& op) {
    Result r;
    r.m = m0;
    M& m = r.m;
    std::string const& a = op.a;
    auto rej = [&]() -> Result { Result x; x.v = reject; x.m = m0; return x; };
    auto unk = [&]() -> Result { Result x; x.v = unknown; x.m = m0; return x; };
    // the path must still fit the parts in front of it
    auto fin = [&]() -> Result {
        if (!path_ok(m.path, m.scheme_p, m.auth)) return rej();
        r.v = accept;
        return r;
    };
    if ((op.kind == K::set_url || op.kind == K::set_origin || op.kind == K::set_authority ||
         op.kind == K::set_host || op.kind == K::set_ehost) && mentions_ipvfuture(a))
        return unk();
    switch (op.kind) {
    case K::set_url: {
        auto p = parse(a);
        if (!p) return rej();
        m = *p;
        r.v = accept;
        return r;
    }
    case K::set_origin: {
        M o;
        if (!a.empty()) {
            auto c = a.find(':');
            if (c == std::string::npos || !valid_scheme(a.substr(0, c))) return rej();
            o.scheme_p = true; o.scheme = a.substr(0, c);
            auto t = a.substr(c + 1);
            if (!t.empty()) {
                if (t.compare(0, 2, "//")) return rej();
                t = t.substr(2);
                if (!t.empty() && t.back() == '/') t.pop_back();
                if (t.find_first_of("/?#") != std::string::npos) return rej();
                if (!parse_authority(t, o)) return rej();
            }
        }
        o.path = m.path; o.query_p = m.query_p; o.query = m.query; o.frag_p = m.frag_p; o.frag = m.frag;
        m = o;
        return fin();
    }
    case K::set_scheme:
        if (a.empty()) { m.scheme_p = false; m.scheme = ""; return fin(); }
        if (!valid_scheme(a)) return rej();
        m.scheme_p = true; m.scheme = a;
        return fin();
    case K::set_authority:
        if (a.empty()) { m.clear_auth(); return fin(); }
        if (a.find_first_of("/?#") != std::string::npos) return rej();
        if (!parse_authority(a, m)) return rej();
        return fin();
    case K::set_userinfo:
    case K::set_userinfo_part: {
        auto s = a;
        if (op.kind == K::set_userinfo_part && !s.empty()) {
            if (s == "@") return unk();
            if (s.back() != '@') return rej();
            s.pop_back();
        }
        if (s.empty()) {
            if (m.host.empty() && !m.port_p) m.clear_auth();
            else { m.at = m.colon = false; m.user = m.pw = ""; }
            return fin();
        }
        if (!chars_ok(s, ":")) return rej();
        m.auth = m.at = true;
        auto c = s.find(':');
        m.user = s.substr(0, c);
        m.colon = c != std::string::npos;
        m.pw = m.colon ? s.substr(c + 1) : "";
        return fin();
    }
    case K::set_user:
    case K::set_euser:
        if (a.empty()) {
            m.user = "";
            if (!m.colon) m.at = false;
            return fin();
        }
        if (op.kind == K::set_euser && !chars_ok(a, "")) return rej();
        m.auth = m.at = true;
        m.user = op.kind == K::set_user ? pct_encode(a, "") : a;
        return fin();
    case K::set_password:
    case K::set_epassword:
    case K::set_password_part: {
        auto s = a;
        if (op.kind == K::set_password_part && !s.empty()) {
            if (s[0] != ':') return rej();
            s = s.substr(1);
            if (s.empty()) { m.auth = m.at = m.colon = true; m.pw = ""; return fin(); }
        }
        if (s.empty()) {
            m.colon = false; m.pw = "";
            if (m.user.empty()) m.at = false;
            return fin();
        }
        if (op.kind == K::set_password) s = pct_encode(s, ":");
        else {
            if (s[0] == ':') return unk();
            if (!chars_ok(s, ":")) return rej();
        }
        m.auth = m.at = m.colon = true;
        m.pw = s;
        return fin();
    }
    case K::set_host:
    case K::set_ehost:
        if (a.empty()) {
            if (m.auth && !m.at && !m.port_p) m.clear_auth();
            m.host = "";
            return fin();
        }
        if (op.kind == K::set_ehost) {
            if (!host_ok(a)) return rej();
            m.host = a;
        } else if ((a[0] == '[' && a.size() > 2 && a.back() == ']' && is_ipv6(a.substr(1, a.size() - 2))) || is_ipv4(a))
            m.host = a;
        else m.host = pct_encode(a, "");
        m.auth = true;
        return fin();
    case K::set_port:
    case K::set_port_num:
    case K::set_port_part: {
        auto s = a;
        if (op.kind == K::set_port_num) s = std::to_string((unsigned)op.i);
        if (op.kind == K::set_port_part && !s.empty()) {
            if (s[0] != ':') return rej();
            s = s.substr(1);
            if (s.empty()) { m.auth = m.port_p = true; m.port = ""; return fin(); }
        }
        if (s.empty()) {
            if (m.auth && !m.at && m.host.empty()) m.clear_auth();
            m.port_p = false; m.port = "";
            return fin();
        }
        for (unsigned char c : s) if (!digit(c)) return rej();
        m.auth = m.port_p = true;
        m.port = s;
        return fin();
    }
    case K::set_path:
        m.path = a;
        return fin();
    case K::set_query:
    case K::set_equery:
    case K::set_query_part: {
        if (a.empty()) { m.query_p = false; m.query = ""; return fin(); }
        auto s = a;
        if (op.kind == K::set_query_part) { if (s[0] != '?') return rej(); s = s.substr(1); }
        if (op.kind == K::set_query) s = pct_encode(s, ":@/?");
        else if (!chars_ok(s, ":@/?")) return rej();
        m.query_p = true; m.query = s;
        return fin();
    }
    case K::set_fragment:
    case K::set_efragment:
    case K::set_fragment_part: {
        if (a.empty()) { m.frag_p = false; m.frag = ""; return fin(); }
        auto s = a;
        if (op.kind == K::set_fragment_part) { if (s[0] != '#') return rej(); s = s.substr(1); }
        if (op.kind == K::set_fragment) s = pct_encode(s, ":@/?");
        else if (!chars_ok(s, ":@/?")) return rej();
        m.frag_p = true; m.frag = s;
        return fin();
    }
    case K::normalize:
    case K::normalize_scheme:
        for (auto& c : m.scheme) if (c >= 'A' && c <= 'Z') c += 32;
        return fin();
    case K::seg_insert: case K::seg_insert_enc: case K::seg_replace: case K::seg_replace_enc:
    case K::seg_erase: case K::seg_erase_range: {
        std::vector<std::string> v;
        bool abs = split_path(m.path, v);
        size_t n = v.size();
        auto repr = [&](std::string const& p, std::vector<std::string> const& want, bool wabs) {
            std::vector<std::string> w;
            bool b = split_path(p, w);
            return path_ok(p, m.scheme_p, m.auth) && w == want && (w.empty() || b == wabs);
        };
        if (op.kind == K::seg_erase || op.kind == K::seg_erase_range) {
            size_t f, l;
            if (n == 0) { r.v = accept; r.index = 0; return r; }   // nothing to erase
            if (op.kind == K::seg_erase) { f = (size_t)op.i % n; l = f + 1; }
            else { f = (size_t)op.i % (n + 1); l = f + (size_t)op.j % (n - f + 1); }
            if (f == l) { r.v = accept; r.index = (long)f; return r; }
            v.erase(v.begin() + f, v.begin() + l);
            r.index = (long)f;
            m.path = join_path(abs, v);
            if (!repr(m.path, v, abs)) {
                v.insert(v.begin(), ".");
                r.index++;
                m.path = join_path(abs, v);
            }
            r.v = accept;
            return r;
        }
        bool ins = op.kind == K::seg_insert || op.kind == K::seg_insert_enc;
        bool enc = op.kind == K::seg_insert_enc || op.kind == K::seg_replace_enc;
        if (!ins && n == 0) { r.v = accept; r.index = 0; return r; }   // not performed
        if (enc && !chars_ok(a, ":@")) return rej();
        auto s = enc ? a : pct_encode(a, ":@");
        if (n == 0) abs = true;
        size_t at = ins ? (size_t)op.i % (n + 1) : (size_t)op.i % n;
        if (ins) v.insert(v.begin() + at, s); else v[at] = s;
        m.path = join_path(abs, v);
        if (!repr(m.path, v, abs)) return rej();
        r.index = (long)at + 1;
        r.v = accept;
        return r;
    }
    default:
        return unk();
    }
}

} // ref
} // sim
