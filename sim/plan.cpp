// Plans: text form (also the replay file) and seeded generation.
#include "core.hpp"
#include <cstdio>
#include <cstring>
#include <sstream>
#include <stdexcept>
#include <algorithm>
namespace sim {

char const* const kind_names[] = {
    "set_url", "set_origin", "set_scheme", "set_authority", "set_userinfo", "set_userinfo_part",
    "set_user", "set_euser", "set_password", "set_epassword", "set_password_part",
    "set_host", "set_ehost", "set_port", "set_port_num", "set_port_part",
    "set_path", "set_query", "set_equery", "set_query_part",
    "set_fragment", "set_efragment", "set_fragment_part",
    "normalize", "normalize_scheme",
    "seg_insert", "seg_insert_enc", "seg_replace", "seg_replace_enc", "seg_erase", "seg_erase_range",
    "ctor_default", "ctor_str", "copy_ctor", "copy_assign", "move_ctor", "move_assign",
    "read", "decode", "lookup", "pool_alloc", "pool_free", "pool_cont", "pool_string", "pool_copy", "permute", "grow", "preempt", "environ" };
char const* const fault_names[] = { "none", "alloc", "starve", "gnew", "gstarve", "total" };

K kind_from(std::string const& s) {
    for (int i = 0; i < (int)K::COUNT; ++i) if (s == kind_names[i]) return (K)i;
    throw std::runtime_error("bad op " + s);
}
std::string hex(std::string const& s) {
    static char const H[] = "0123456789abcdef";
    std::string r;
    for (unsigned char c : s) { r += H[c >> 4]; r += H[c & 15]; }
    return r;
}
std::string unhex(std::string const& s) {
    auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
    std::string r;
    for (size_t i = 0; i + 1 < s.size(); i += 2) r += (char)(v(s[i]) * 16 + v(s[i + 1]));
    return r;
}
std::string quote(std::string const& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c >= 32 && c < 127 && c != '"' && c != '\\') r += (char)c;
        else { char b[8]; std::snprintf(b, sizeof b, "\\x%02x", c); r += b; }
        if (r.size() > 200) { r += "...(" + std::to_string(s.size()) + ")"; break; }
    }
    return r + "\"";
}
static std::string op_text(Op const& o) {
    std::ostringstream s;
    s << "op " << kind_names[(int)o.kind] << " u=" << o.u << " i=" << o.i << " j=" << o.j << " a=" << hex(o.a);
    if (o.fit != INT32_MIN) s << " fit=" << o.fit;
    if (o.f.kind != F::none) s << " f=" << fault_names[(int)o.f.kind] << ":" << o.f.k << ":" << o.f.len;
    s << " r=" << o.retry;
    return s.str();
}
std::string show(Op const& o) {
    std::ostringstream s;
    if (o.kind == K::preempt) { s << "after " << o.i << (o.u ? " shared accesses" : " accesses") << " run thread " << o.j; return s.str(); }
    s << kind_names[(int)o.kind] << "(url" << o.u << ", i=" << o.i << ", j=" << o.j << ", " << quote(o.a) << ")";
    if (o.fit != INT32_MIN) s << " fit=" << o.fit;
    if (o.f.kind != F::none) s << " fault=" << fault_names[(int)o.f.kind] << ":" << o.f.k << ":" << o.f.len;
    return s.str();
}
std::string to_text(Plan const& p) {
    std::ostringstream s;
    s << "plan v1\nprop " << p.prop << "\nseed " << p.seed << "\n";
    for (auto& c : p.cfg) s << "cfg " << c.first << " " << c.second << "\n";
    for (auto& o : p.ops) s << op_text(o) << "   ; " << show(o) << "\n";
    return s.str();
}
Plan from_text(std::string const& t) {
    Plan p;
    std::istringstream in(t);
    std::string line;
    while (std::getline(in, line)) {
        auto sc = line.find(" ; ");
        if (sc != std::string::npos) line.resize(sc);
        std::istringstream l(line);
        std::string w;
        if (!(l >> w) || w[0] == '#') continue;
        if (w == "prop") l >> p.prop;
        else if (w == "seed") l >> p.seed;
        else if (w == "cfg") { std::string k; long v; l >> k >> v; p.cfg[k] = v; }
        else if (w == "op") {
            Op o;
            l >> w;
            o.kind = kind_from(w);
            while (l >> w) {
                auto e = w.find('=');
                auto k = w.substr(0, e), v = w.substr(e + 1);
                if (k == "u") o.u = std::stoi(v);
                else if (k == "i") o.i = std::stoi(v);
                else if (k == "j") o.j = std::stoi(v);
                else if (k == "a") o.a = unhex(v);
                else if (k == "fit") o.fit = std::stoi(v);
                else if (k == "r") o.retry = std::stoi(v);
                else if (k == "f") {
                    auto c = v.find(':'), d = v.find(':', c + 1);
                    for (int i = 0; i < 6; ++i) if (v.substr(0, c) == fault_names[i]) o.f.kind = (F)i;
                    o.f.k = std::stoi(v.substr(c + 1));
                    o.f.len = std::stoi(v.substr(d + 1));
                }
            }
            p.ops.push_back(o);
        }
    }
    return p;
}

//---------------------------------------------------------------- values
namespace {
char const* const UNRES = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~";
char const* const SUB = "!$&'()*+,;=";
char const* const RESERVED = ":/?#[]@";

struct G {
    Rng& r;
    bool big = true;                    // allow long values
    bool giant = false;                 // sizes around powers of two
    int invalid = 10;                   // percent of deliberately invalid encoded values
    std::vector<std::string> pool;      // values used before in this plan

    explicit G(Rng& r_) : r(r_) {}

    int giant_len() {
        static int const p[] = { 127, 128, 255, 256, 511, 512, 1023, 1024, 4095, 4096, 8191, 8192, 32767, 32768, 65535, 65536, 65537 };
        return p[r.below(17)] + r.range(-2, 2);
    }
    int giant_count() {
        if (r.chance(90)) { static int const p[] = { 31, 63, 64, 99, 127, 128, 255, 256, 511, 512 }; return p[r.below(10)] + r.range(-2, 2); }
        static int const p[] = { 4096, 32768, 65535, 65536 };
        return p[r.below(4)] + r.range(-2, 2);
    }
    int len() {
        static int const edge[] = { 14, 15, 16, 17, 22, 23, 30, 31, 32, 33, 62, 63, 64, 65, 126, 127, 128, 129, 254, 255, 256, 257 };
        if (giant && r.chance(15)) return giant_len();
        auto x = r.below(1000);
        if (x < 60) return 0;
        if (x < 260) return 1;
        if (x < 420) return 2;
        if (x < 760) return r.range(3, 9);
        if (x < 900) return r.range(10, 40);
        if (x < 960) return edge[r.below(sizeof edge / sizeof *edge)];
        if (!big) return r.range(1, 20);
        if (x < 990) return r.range(41, 400);
        if (x < 999) return r.range(400, 5200);
        return r.permille(40) ? r.range(65500, 70000) : r.range(1000, 9000);
    }
    std::string bytes() {               // plain text, any byte
        int n = len(), mode = r.range(0, 7);
        std::string s;
        for (int i = 0; i < n; ++i) {
            int m = mode;
            if (r.chance(15)) m = r.range(0, 7);
            switch (m) {
            case 0: case 1: s += UNRES[r.below(std::strlen(UNRES))]; break;
            case 2: s += SUB[r.below(std::strlen(SUB))]; break;
            case 3: s += RESERVED[r.below(7)]; break;
            case 4: s += "% \"<>\\^`{|}"[r.below(11)]; break;
            case 5: s += (char)r.below(256); break;
            case 6: s += (char)r.range(0, 32); break;
            default: s += (char)r.range(126, 255); break;
            }
        }
        return s;
    }
    std::string triplet(int byte) {
        static char const U[] = "0123456789ABCDEF", L[] = "0123456789abcdef";
        std::string s = "%";
        s += (r.chance(60) ? U : L)[byte >> 4];
        s += (r.chance(60) ? U : L)[byte & 15];
        return s;
    }
    std::string encoded_n(char const* extra, int n) {
        std::string s;
        int mode = r.range(0, 4);
        size_t ne = std::strlen(extra);
        while ((int)s.size() < n) {
            int m = r.chance(20) ? r.range(0, 4) : mode;
            if (m == 2) s += SUB[r.below(std::strlen(SUB))];
            else if (m == 3 && ne) s += extra[r.below(ne)];
            else if (m == 4) s += triplet(r.chance(50) ? (int)r.below(256) : (unsigned char)"\0 %/?#&=:@~aZ\xff"[r.below(14)]);
            else s += UNRES[r.below(std::strlen(UNRES))];
        }
        return s;
    }
    std::string spoil(std::string s) {
        static std::string const bad("\0 \"<>\\^`{|}\x7f\x80\xff\n[]", 18);
        size_t p = r.below(s.size() + 1);
        switch (r.range(0, 12)) {
        case 8: s.resize(p); break;
        case 9: if (p < s.size()) s.erase(p, 1); break;
        case 10: if (p < s.size()) s.insert(p, 1, s[p]); break;
        case 0: s.insert(p, 1, bad[r.below(bad.size())]); break;
        case 1: s.insert(p, "%"); break;
        case 2: s += "%"; break;
        case 3: s += "%4"; break;
        case 4: s.insert(p, "%g1"); break;
        case 5: s.insert(p, "%1g"); break;
        case 6: s.insert(p, 1, RESERVED[r.below(7)]); break;
        default: s.insert(p, 1, (char)r.below(256)); break;
        }
        return s;
    }
    std::string maybe_spoil(std::string s) { return r.chance(invalid) ? spoil(s) : s; }
    std::string enc(char const* extra) { return maybe_spoil(encoded_n(extra, len())); }

    std::string scheme() {
        static std::vector<std::string> const known = { "http", "https", "ws", "wss", "ftp", "file", "HTTP", "Http", "mailto", "urn", "a", "Z", "x-y.z+1", "h2", "WSS", "FiLe" };
        std::string s;
        if (r.chance(60)) s = r.pick(known);
        else {
            s += UNRES[r.below(52)];
            int n = r.chance(90) ? r.range(0, 8) : r.range(9, 60);
            bool wide = r.chance(50);
            for (int i = 0; i < n; ++i) s += wide ? "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+-."[r.below(65)] : "abcXYZ019+-.mQ"[r.below(14)];
        }
        if (r.chance(invalid)) {
            switch (r.range(0, 7)) {
            case 0: s = "1" + s; break;
            case 1: s += ":"; break;
            case 2: s += "_"; break;
            case 3: s = "+" + s; break;
            case 4: s += "%41"; break;
            default: s.insert(r.below(s.size() + 1), 1, (char)r.below(256)); break;
            }
        }
        return s;
    }
    std::string octet() { int k = r.range(0, 9); return k < 3 ? std::to_string(r.range(0, 9)) : k < 6 ? std::to_string(r.range(10, 99)) : k < 9 ? std::to_string(r.range(100, 255)) : "0"; }
    std::string v4() { return octet() + "." + octet() + "." + octet() + "." + octet(); }
    std::string h16() {
        std::string s;
        int n = r.range(1, 4);
        for (int i = 0; i < n; ++i) s += "0123456789abcdefABCDEF"[r.below(22)];
        return s;
    }
    std::string v6() {
        int total = 8;
        bool tail4 = r.chance(30);
        int words = tail4 ? 6 : 8;
        auto join = [&](int n) { std::string s; for (int i = 0; i < n; ++i) { if (i) s += ":"; s += h16(); } return s; };
        (void)total;
        if (r.chance(30)) { auto s = join(words); return tail4 ? s + ":" + v4() : s; }
        int have = r.range(0, words - 1), a = r.range(0, have), b = have - a;
        std::string s = join(a) + "::" + join(b);
        if (tail4) { if (b) s += ":"; s += v4(); }
        return s;
    }
    std::string near4() {               // almost an IPv4 address, or just one
        static std::vector<std::string> const o = { "", "00", "01", "0", "9", "10", "99", "100", "199", "249", "250", "255", "256", "257", "260", "299", "300", "999", "1000", "2550", "a", "1a", "00000001", "65536", "4294967297", "%31" };
        std::vector<std::string> v;
        int n = r.chance(75) ? 4 : r.range(1, 6);
        for (int i = 0; i < n; ++i) v.push_back(octet());
        int k = r.chance(70) ? 1 : 2;
        while (k-- > 0) v[r.below(v.size())] = r.pick(o);
        std::string s;
        for (size_t i = 0; i < v.size(); ++i) { if (i) s += '.'; s += v[i]; }
        if (r.chance(15)) s.resize(r.below(s.size() + 1));
        if (r.chance(8)) s += "."; 
        return s;
    }
    std::string near6() {               // almost an IPv6 address, or just one
        int n = r.chance(60) ? r.range(5, 9) : r.range(0, 9), gap = r.chance(65) ? r.range(0, n) : -1, gap2 = r.chance(8) ? r.range(0, n) : -1;
        std::string s;
        for (int i = 0; i < n; ++i) {
            if (i == gap || i == gap2) s += i ? ":" : "::";
            s += r.chance(90) ? h16() : r.chance(40) ? h16() + "0" : r.chance(50) ? "g" : "";
            if (i + 1 < n) s += ":";
        }
        if (gap == n || gap2 == n) s += "::";
        if (r.chance(40)) { if (!s.empty() && s.back() != ':') s += ":"; s += r.chance(60) ? v4() : near4(); }
        if (r.chance(6)) s.insert(r.below(s.size() + 1), 1, ":.%]["[r.below(5)]);
        s = "[" + s + "]";
        if (r.chance(20)) s.resize(r.below(s.size()) + 1);
        return s;
    }
    std::string host(bool plain) {
        static std::vector<std::string> const near = { "256.1.1.1", "01.2.3.4", "1.2.3", "1.2.3.4.5", "1.2.3.4x", "1.2.3.", "0.0.0.0", "255.255.255.255", "1.2.3.256", "1.2.3.04",
            "127.0.0.1", "1.2.3.4%41", "999", ".", "1..2.3", "localhost", "www.example.com", "EXAMPLE.com", "x" };
        static std::vector<std::string> const bad6 = { "[::1", "::1]", "[]", "[:]", "[:::]", "[1:2]", "[::1::2]", "[1:2:3:4:5:6:7:8:9]", "[::12345]", "[::g]", "[::1.2.3]", "[::01.2.3.4]",
            "[::.1.2.3]", "[::1.2.3.4.5]", "[1:2:3:4:5:6:7:1.2.3.4]", "[::256.1.1.1]", "[::1]x", "[::1%25eth0]", "x[::1]", "[::1]]", "[[::1]]", "[1.2.3.4]" , "[::1:]", "[:1::2]", "[1::2:]", "[::1.2.3.256]", "[1:2:3:4:5:6:7::8]", "[1:2:3:4:5:6:1.2.3.4]" , "[::a.2.3.4]" };
        int k = r.range(0, 99);
        if (k < 16) return v4();
        if (k < 32) return "[" + v6() + "]";
        if (k < 44) return near4();
        if (k < 52) return r.pick(near);
        if (k > 88 && (plain || r.chance(40 + 2 * invalid))) return near6();
        if (k < 60 && (plain || r.chance(40 + 2 * invalid))) return r.pick(bad6);
        if (k < 64 && invalid) return spoil(r.chance(50) ? "[" + v6() + "]" : v4());
        if (plain) return r.chance(60) ? encoded_n("", r.range(1, 12)) : bytes();
        return enc("");
    }
    std::string port() {
        static std::vector<std::string> const p = { "80", "443", "0", "65535", "65536", "8080", "1", "00080", "4294967295", "4294967296", "99999999999999999999" };
        auto s = r.chance(60) ? r.pick(p) : std::to_string(r.below(100000));
        if (r.permille(10)) s = std::string(r.range(20, 300), '7');
        if (r.chance(invalid)) s.insert(r.below(s.size() + 1), 1, r.chance(30) ? (char)r.below(256) : "a:-+ /%x\0"[r.below(9)]);
        return s;
    }
    std::string seg_enc() {
        static std::vector<std::string> const s = { "", "", "a", "b", ".", "..", "x:y", ":", "@", "a@b", "%2F", "%2f", "%00", "index.html", "a;b=c", "*", "%3A", "b=1,2" };
        return r.chance(55) ? r.pick(s) : encoded_n(":@", len());
    }
    std::string path() {
        int n = r.chance(8) ? r.range(5, 30) : r.range(0, 4);
        std::string s;
        bool abs = r.chance(70);
        if (giant && r.chance(40)) {
            n = giant_count();
            char const* seg = r.chance(50) ? "" : r.chance(50) ? "a" : "%2F";
            s = abs ? "/a" : "a";
            for (int i = 1; i < n; ++i) { s += '/'; s += seg; }
            return s;
        }
        bool save = big; if (n > 6) big = false;
        for (int i = 0; i < n; ++i) { if (i || abs) s += '/'; s += seg_enc(); }
        big = save;
        if (r.chance(4)) s = "/" + s;
        return maybe_spoil(s);
    }
    std::string qkey() {
        static std::vector<std::string> const k = { "", "a", "k", "key", "q", "A", "%61", "a%20b", "x/y", "a?b", "%3D", "%26", "K1", "%00", "ab", "%6B", "k%65y" };
        if (!pool.empty() && r.chance(30)) return r.pick(pool);
        auto s = r.chance(70) ? r.pick(k) : encoded_n(":@/?", r.chance(80) ? r.range(0, 9) : len());
        if (r.chance(2)) for (int n = r.range(20, 140); n > 0; --n) s += triplet((int)r.below(256));
        s.erase(std::remove_if(s.begin(), s.end(), [](char c) { return c == '&' || c == '='; }), s.end());
        pool.push_back(s);
        return s;
    }
    std::string query() {
        if (r.chance(15)) {
            static std::vector<std::string> const q = { "", "&", "=", "&&", "=&=", "a", "a&b", "a=b=c", "a=1&", "&a=1", "a==", "a&=&b", "?", "??&?=?", "a=1&a=2&a=3", "a&a", "/", "a=%26", "%3D=%3D" };
            return r.pick(q);
        }
        int n = r.chance(8) ? r.range(6, 40) : r.range(1, 5);
        std::string s;
        if (giant && r.chance(40)) {
            n = giant_count();
            char const* it = r.chance(40) ? "" : r.chance(50) ? "a" : "k=v";
            for (int i = 1; i < n; ++i) { s += it; s += '&'; }
            return s + "last=1";
        }
        bool save = big; if (n > 6) big = false;
        for (int i = 0; i < n; ++i) {
            if (i) s += '&';
            if (r.chance(6)) continue;
            s += qkey();
            if (r.chance(75)) { s += '='; auto v = r.chance(50) ? encoded_n(":@/?", r.range(0, 12)) : encoded_n(":@/?", len()); v.erase(std::remove(v.begin(), v.end(), '&'), v.end()); s += v; }
        }
        big = save;
        return s;
    }
    std::string userinfo() {
        std::string s = encoded_n("", r.chance(20) ? 0 : len());
        if (r.chance(60)) s += ":" + encoded_n(r.chance(30) ? ":" : "", r.chance(20) ? 0 : len());
        return s;
    }
    std::string authority() {
        std::string s;
        if (r.chance(45)) s += userinfo() + "@";
        if (!r.chance(8)) s += host(false);
        if (r.chance(40)) s += ":" + (r.chance(15) ? std::string() : port());
        return s;
    }
    std::string url() {
        std::string s;
        bool sc = r.chance(70), au = r.chance(65);
        if (sc) s += scheme() + ":";
        if (au) s += "//" + authority();
        auto p = path();
        if (au && !p.empty() && p[0] != '/' && !r.chance(invalid)) p = "/" + p;
        s += p;
        if (r.chance(50)) s += "?" + query();
        if (r.chance(35)) s += "#" + encoded_n(":@/?", len());
        if (r.chance(invalid)) s = spoil(s);
        if (r.chance(1)) s = "";
        return s;
    }
    std::string origin() {
        std::string s = scheme() + ":";
        if (r.chance(90)) s += "//" + authority();
        if (r.chance(10)) s += "/";
        if (r.chance(invalid)) { static std::vector<std::string> const t = { "?q", "#f", "/p", "//", "/?", "//h" }; s += r.pick(t); }
        if (r.chance(4)) s = "";
        return s;
    }
    std::map<K, std::vector<std::string>> used;
    int alike = 8;                      // percentage of values which are like an earlier one
    std::string arg(K k) {              // sometimes an earlier value of the same part, or one much like it
        auto& u = used[k];
        if (!u.empty() && r.chance(alike)) {
            auto s = r.pick(u);
            int m = r.range(0, 9);
            auto hexd = [](char c) { return (c >= '0' && c <= '9') || ((c | 32) >= 'a' && (c | 32) <= 'f'); };
            size_t at = s.empty() ? 0 : r.below(s.size()), esc = s.find('%', at);
            if (esc == std::string::npos) esc = s.find('%');
            bool const e = esc != std::string::npos && esc + 2 < s.size() && hexd(s[esc + 1]) && hexd(s[esc + 2]);
            if (m == 6 && e) { char& c = s[esc + 1 + r.below(2)]; if (c > '9') c ^= 32; }                      // %4a, %4A
            else if (m == 7 && e && r.chance(50)) { for (int i = 0; i < 3; ++i) s[esc + i] = UNRES[r.below(62)]; }      // as long, decodes to more
            else if (m == 7) {                                                                                     // as long, decodes to less
                for (size_t i = at; i + 2 < s.size(); ++i) {
                    if (!UNRES_P(s[i]) || !UNRES_P(s[i + 1]) || !UNRES_P(s[i + 2]) || (i && s[i - 1] == '%') || (i > 1 && s[i - 2] == '%')) continue;
                    s[i] = '%'; s[i + 1] = (char)('2' + r.below(6)); s[i + 2] = "0123456789abcdefABCDEF"[r.below(22)];
                    break;
                }
            }
            else if (m == 8 && e && esc && UNRES_P(s[esc - 1])) { char c = s[esc - 1]; s.erase(esc - 1, 1); s.insert(esc + 2, 1, c); }   // a%41, %41a
            else if (m == 9 && s.size() && UNRES_P(s[at]) && (at < 1 || s[at - 1] != '%') && (at < 2 || s[at - 2] != '%')) s[at] ^= 32;
            else if (m == 1 && !s.empty()) { auto& c = s[r.below(s.size())]; if (UNRES_P(c)) c = UNRES[r.below(62)]; }
            else if (m == 2) s += 'x';
            else if (m == 3 && !s.empty() && UNRES_P(s.back())) s.pop_back();
            else if (m == 4 && !s.empty() && UNRES_P(s[0])) s[0] = s[0] ^ 1;
            return s;
        }
        auto s = fresh_arg(k);
        if (u.size() < 4 && s.size() < 300) u.push_back(s);
        return s;
    }
    static bool UNRES_P(char c) { return (c >= 'b' && c <= 'y') || (c >= 'B' && c <= 'Y'); }
    std::string fresh_arg(K k) {
        int e = r.range(0, 99);
        switch (k) {
        case K::set_url: case K::ctor_str: return url();
        case K::set_origin: return origin();
        case K::set_scheme: return e < 12 ? "" : scheme();
        case K::set_authority: return e < 12 ? "" : maybe_spoil(authority());
        case K::set_userinfo: return e < 15 ? "" : maybe_spoil(userinfo());
        case K::set_userinfo_part: {
            if (e < 12) return "";
            auto s = maybe_spoil(userinfo());
            if (!r.chance(invalid)) s += "@";
            return s == "@" ? std::string("u@") : s;
        }
        case K::set_user: return e < 15 ? "" : bytes();
        case K::set_euser: return e < 12 ? "" : enc("");
        case K::set_password: return e < 15 ? "" : bytes();
        case K::set_epassword: { auto s = e < 12 ? std::string() : enc(r.chance(40) ? ":" : ""); while (!s.empty() && s[0] == ':') s.erase(0, 1); return s; }
        case K::set_password_part: {
            if (e < 12) return "";
            if (e < 20) return ":";
            auto s = enc(r.chance(40) ? ":" : "");
            while (!s.empty() && s[0] == ':') s.erase(0, 1);
            return r.chance(invalid) ? s : ":" + s;
        }
        case K::set_host: return e < 12 ? "" : host(true);
        case K::set_ehost: return e < 12 ? "" : host(false);
        case K::set_port: return e < 12 ? "" : port();
        case K::set_port_part: return e < 12 ? "" : e < 22 ? ":" : r.chance(invalid) ? port() : ":" + port();
        case K::set_path: return e < 8 ? "" : path();
        case K::set_query: return e < 10 ? "" : r.chance(60) ? bytes() : query();
        case K::set_equery: return e < 10 ? "" : maybe_spoil(query());
        case K::set_query_part: return e < 10 ? "" : e < 18 ? "?" : r.chance(invalid) ? query() : "?" + maybe_spoil(query());
        case K::set_fragment: return e < 10 ? "" : bytes();
        case K::set_efragment: return e < 10 ? "" : enc(":@/?");
        case K::set_fragment_part: return e < 10 ? "" : e < 18 ? "#" : r.chance(invalid) ? enc(":@/?") : "#" + enc(":@/?");
        case K::seg_insert: case K::seg_replace: return r.chance(30) ? seg_enc() : bytes();
        case K::seg_insert_enc: case K::seg_replace_enc: return r.chance(invalid) ? spoil(seg_enc()) : seg_enc();
        case K::lookup: {
            if (e < 55) return ref::pct_decode(qkey());
            if (e < 65) return qkey();
            return bytes();
        }
        default: return "";
        }
    }
};

std::vector<K> const SETTERS = {
    K::set_url, K::set_origin, K::set_scheme, K::set_authority, K::set_userinfo, K::set_userinfo_part,
    K::set_user, K::set_euser, K::set_password, K::set_epassword, K::set_password_part,
    K::set_host, K::set_ehost, K::set_port, K::set_port_num, K::set_port_part,
    K::set_path, K::set_path, K::set_query, K::set_equery, K::set_query_part,
    K::set_fragment, K::set_efragment, K::set_fragment_part, K::normalize, K::normalize_scheme };
std::vector<K> const SEGS = { K::seg_insert, K::seg_insert_enc, K::seg_replace, K::seg_replace_enc, K::seg_erase, K::seg_erase_range };
std::vector<K> const OBJS = { K::copy_ctor, K::copy_assign, K::copy_assign, K::move_ctor, K::move_assign, K::ctor_str, K::ctor_default };
std::vector<K> const FITTABLE = { K::set_user, K::set_euser, K::set_password, K::set_epassword, K::set_host, K::set_ehost, K::set_port, K::set_path,
    K::set_query, K::set_equery, K::set_query_part, K::set_fragment, K::set_efragment, K::set_fragment_part, K::seg_insert, K::seg_insert_enc, K::seg_replace, K::seg_replace_enc, K::set_url, K::set_scheme };

Fault gen_fault(Rng& r, int pct, bool gnew) {
    Fault f;
    if (!r.chance(pct)) return f;
    int k = r.range(0, 9);
    if (gnew && k < 4) { f.kind = r.chance(70) ? F::gnew : F::gstarve; f.k = r.range(1, 3); f.len = r.range(1, 2); return f; }
    if (k < 7) { f.kind = F::alloc; f.k = r.chance(80) ? 1 : r.range(1, 3); f.len = r.range(1, 2); }
    else if (k < 9) f.kind = F::starve;
    else f.kind = F::total;
    return f;
}

Op gen_op(G& g, int nslots, int seg_pct, int obj_pct) {
    Rng& r = g.r;
    Op o;
    o.u = (int)r.below(nslots);
    if (r.chance(obj_pct)) o.kind = r.pick(OBJS);
    else if (r.chance(seg_pct)) o.kind = r.pick(SEGS);
    else o.kind = r.pick(SETTERS);
    if (o.kind == K::set_port_num) {
        static long const edge[] = { 0, 1, 9, 10, 99, 100, 65535, 65536, 4294967295l, 1000000000l, 999999999l, 2147483647l };
        o.i = (int)(unsigned)(r.chance(50) ? edge[r.below(12)] : (long)(r.next() >> r.range(32, 63)));
    } else {
        o.i = r.chance(30) ? 0 : r.range(0, 40);
        o.j = r.chance(20) ? 0 : r.range(0, 40);
        if (g.giant && is_seg(o.kind) && r.chance(60)) { o.i = r.chance(40) ? 0 : (int)r.below(70000); o.j = (int)r.below(70000); }
    }
    if (is_object(o.kind)) o.j = (int)r.below(nslots);
    o.a = g.arg(o.kind);
    return o;
}
}

Plan generate(std::string const& prop, uint64_t seed) {
    Plan p;
    p.prop = prop;
    p.seed = seed;
    uint64_t pn = 0;
    for (char c : prop) pn = pn * 131 + (unsigned char)c;
    Rng r(seed * 1000003ull + pn);
    G g(r);
    p.cfg["junk"] = r.range(1, 255);
    if (prop == "C12") {
        // static pool: raw blocks and URLs in one buffer
        p.cfg["size"] = r.chance(50) ? r.range(0, 64) : r.chance(70) ? r.range(65, 600) : r.range(600, 5000);
        p.cfg["off"] = r.range(0, 31);
        p.cfg["slots"] = r.range(0, 2);
        if (r.chance(25)) p.cfg["static"] = r.range(1, 7);      // static_pool<N> instead of a caller's buffer
        int conts = r.chance(40) ? r.range(5, 40) : 0, frees = r.chance(30) ? 40 : 12;
        int n = r.range(2, 30);
        g.big = r.chance(30);
        for (int i = 0; i < n; ++i) {
            if (p.cfg["slots"] && r.chance(45)) {
                Op o = gen_op(g, (int)p.cfg["slots"], 30, 10);
                p.ops.push_back(o);
                continue;
            }
            Op o;
            o.kind = r.chance(frees) ? K::pool_free : K::pool_alloc;
            if (r.chance(conts)) o.kind = r.chance(75) ? K::pool_cont : K::pool_string;
            if (r.permille(15)) o.kind = K::pool_copy;
            o.u = r.range(0, 6);                // element type, container
            if (o.kind == K::pool_alloc && r.chance(15)) o.u = r.range(7, 8);
            if (o.kind == K::pool_free && r.chance(50)) { o.i = -1; p.ops.push_back(o); continue; }   // the latest block
            int k = r.range(0, 99);
            if (k < 70) o.i = r.range(0, 24);
            else if (k < 85) o.i = r.range(0, 300);
            else if (k < 93) { o.i = -r.range(1, 40); }                // near the numeric limit
            else { o.fit = r.range(-3, 3); }     // sized to the space left
            o.j = r.range(0, 3);                // how the numeric limit is approached
            p.ops.push_back(o);
        }
        return p;
    }
    if (prop == "C13") {
        // caller threads: op.u / 2 is the thread, op.u % 2 its URL; 90 and 91 are the shared URL and view
        int nt = r.chance(55) ? 2 : r.chance(65) ? 3 : 4;
        p.cfg["threads"] = nt;
        p.cfg["pool"] = r.range(0, 2000);
        if (r.chance(25)) p.cfg["maxsize"] = r.range(2, 200);
        for (int i = 0; i < 2 * nt; ++i) { int k = r.range(0, 99); p.cfg["mem" + std::to_string(i)] = k < 60 ? 0 : k < 85 ? 1 : 2; }
        g.big = r.chance(20);
        g.invalid = r.chance(40) ? 40 : 6;
        bool bare = r.chance(25);                // nothing of the library runs before the threads do
        for (int i = 90; i < 92 && !bare; ++i) { Op o; o.kind = K::set_url; o.u = i; int save = g.invalid; g.invalid = 0; o.a = g.url(); g.invalid = save; p.ops.push_back(o); }
        bool twins = r.chance(50);               // threads work on alike data
        int per = r.chance(50) ? r.range(1, 4) : r.range(3, 12), readp = r.range(0, 100);
        std::vector<Op> last;
        for (int n = 0; n < per; ++n)
            for (int t = 0; t < nt; ++t) {
                Op o = twins && t && !last.empty() && r.chance(70) ? r.pick(last) : gen_op(g, 2, 20, 12);
                if (!(twins && t) && r.chance(readp)) {
                    static K const rd[] = { K::read, K::read, K::decode, K::lookup };
                    o.kind = rd[r.below(4)];
                    o.i = (int)r.below(1 << 12);
                    o.j = r.range(0, 63);
                    o.a = r.chance(25) ? g.scheme() : r.chance(20) ? g.arg(K::set_url) : g.arg(K::lookup);
                }
                o.u = t * 2 + (int)r.below(2);
                if (is_object(o.kind)) o.j = (int)r.below(2);
                o.f = Fault{};
                if (r.chance(15)) { o.f.kind = r.chance(70) ? F::alloc : F::starve; o.f.k = r.range(1, 2); o.f.len = 1; }
                last.push_back(o);
                if (last.size() > 6) last.erase(last.begin());
                p.ops.push_back(o);
            }
        int np = r.chance(8) ? 0 : r.chance(60) ? r.range(1, 12) : r.range(10, 60);
        int any = r.range(0, 100), scale = r.chance(60) ? 10 : 60;
        for (int i = 0; i < np; ++i) {
            Op o;
            o.kind = K::preempt;
            o.u = r.chance(any) ? 0 : 1;
            o.i = o.u ? (int)r.below(r.chance(70) ? 6 : 60) : (int)r.below(r.chance(70) ? scale : 400);
            o.j = (int)r.below(nt);
            p.ops.push_back(o);
        }
        return p;
    }
    // changes of the environment, and of the locale during calls
    auto environ = [&]() {
        Op o;
        o.kind = K::environ;
        o.i = (int)r.below(16);
        if (r.chance(25)) o.i = 1 + 4 * (int)r.below(4);              // Turkish
        o.j = r.chance(15) ? 0 : (int)(r.next() >> 33);
        o.u = r.chance(70) ? 0 : r.range(1, 12);
        return o;
    };
    if (prop == "C17") {
        p.cfg["slots"] = 1;
        int n = r.range(2, 30);
        static char const* const known[] = { "ftp", "file", "http", "https", "ws", "wss" };
        for (int k = 0; k < n; ++k) {
            if (r.chance(30)) { p.ops.push_back(environ()); continue; }
            std::string s = known[r.below(6)];
            int c = r.range(0, 99);
            for (char& ch : s) if (r.chance(c < 40 ? 50 : c < 70 ? 5 : 95)) ch = (char)(ch - 32);
            int z = r.range(0, 99);
            auto odd = [&]() { static char const o[] = "\xDD\xFD\0\x20\xC9\xF7is-+.:/S"; return r.chance(50) ? o[r.below(sizeof o - 1)] : (char)r.below(256); };
            if (z < 45) {}
            else if (z < 60) s[r.below(s.size())] = odd();
            else if (z < 66) { size_t at = r.below(s.size()); s[at] = (char)(s[at] ^ (r.chance(50) ? 0x40 : 1 << r.below(8))); }
            else if (z < 72) s.insert(s.begin() + (long)r.below(s.size() + 1), odd());
            else if (z < 77) s.erase(s.begin() + (long)r.below(s.size()));
            else if (z < 82) s += std::string(r.chance(50) ? "s" : known[r.below(6)]);
            else if (z < 86) s = std::string(r.below(6), odd());
            else if (z < 88) s += std::string((size_t)256 * r.range(1, 3), odd());
            else if (z < 90) s += std::string((size_t)1 << r.range(8, 16), s[0]);
            else if (z < 95) { std::string x = s; for (char& ch : s) if (r.chance(40)) ch = odd(); }
            else s = g.arg(K::set_scheme);
            Op o;
            o.a = s;
            o.i = r.range(0, 6);
            o.j = r.range(0, 1);
            if (r.chance(30)) {
                o.kind = K::set_scheme;
                p.ops.push_back(o);
                if (r.chance(60)) { Op q; q.kind = r.chance(50) ? K::normalize_scheme : K::normalize; p.ops.push_back(q); }
                continue;
            }
            o.kind = K::read;
            p.ops.push_back(o);
        }
        return p;
    }
    if (prop == "C18") {
        p.cfg["slots"] = 1;
        int n = r.range(2, 30);
        g.invalid = 70;
        g.big = false;
        for (int k = 0; k < n; ++k) {
            if (r.chance(20)) { p.ops.push_back(environ()); continue; }
            Op o;
            o.f = gen_fault(r, 40, true);
            if (r.chance(35)) {
                o = gen_op(g, 1, 15, 0);
                if (r.chance(20)) { o.kind = K::ctor_str; o.a = g.arg(K::set_url); o.j = 0; }
                o.f = gen_fault(r, 20, true);
                p.ops.push_back(o);
                continue;
            }
            o.kind = K::read;
            o.i = r.chance(80) ? r.range(1, 15) : r.chance(70) ? r.range(-3, 40) : (int)(r.next() >> 32);
            o.j = r.chance(40) ? o.i : r.chance(80) ? r.range(1, 15) : r.range(-3, 40);
            o.retry = r.chance(70);
            p.ops.push_back(o);
        }
        return p;
    }
    int nslots = 1, nops = 12, segp = 20, objp = 0, faultp = 0;
    bool gnew = false;
    auto length = [&]() { return r.chance(60) ? r.range(1, 12) : r.chance(80) ? r.range(8, 40) : r.range(40, 120); };
    nops = length();
    if (prop == "C01") { nslots = r.range(1, 3); segp = 25; objp = 12; faultp = 55; gnew = true; g.invalid = 3; }
    else if (prop == "C02") { nslots = r.range(1, 3); segp = 25; objp = 6; faultp = 12; gnew = true; g.invalid = 45; }
    else if (prop == "C03") { nslots = r.range(1, 2); segp = 25; objp = 8; faultp = 15; gnew = true; g.invalid = 10; }
    else if (prop == "C04") { nslots = 1; segp = 3; objp = 0; faultp = 8; g.invalid = 15; }
    else if (prop == "C05") { nslots = r.chance(75) ? 1 : 2; segp = 75; objp = nslots > 1 ? 12 : 0; faultp = 12; g.invalid = 5; }
    else if (prop == "C06") { nslots = r.chance(75) ? 1 : 2; segp = 5; objp = nslots > 1 ? 30 : 0; faultp = 12; gnew = true; g.invalid = 5; }
    else if (prop == "C07") { nslots = 1; segp = 10; objp = 0; faultp = 40; gnew = true; g.invalid = 3; }
    else if (prop == "C08") { nslots = r.range(1, 3); segp = 25; objp = 15; faultp = 25; gnew = true; g.invalid = 12; }
    else if (prop == "C09") { nslots = 1; segp = 25; objp = 5; faultp = r.chance(40) ? 30 : 0; g.invalid = 5; }
    else if (prop == "C10") { nslots = r.range(1, 2); segp = 30; objp = 10; faultp = 0; g.invalid = 3; }
    else if (prop == "C11") { nslots = 1; }
    else if (prop == "C19") { nslots = r.chance(70) ? 1 : 2; segp = 30; objp = 8; faultp = 20; gnew = true; g.invalid = 12; }
    else if (prop == "C20") { nslots = r.range(1, 3); segp = 25; objp = 20; faultp = 40; gnew = true; g.invalid = 25; p.cfg["exc"] = r.range(1, 6); }
    else if (prop == "C21") { nslots = r.range(1, 4); segp = 0; objp = 100; faultp = 40; gnew = true; g.invalid = r.chance(60) ? 8 : 40; }
    else if (prop == "C22") { nslots = r.range(1, 2); segp = 20; objp = 10; g.invalid = 20; }
    else if (prop == "C23") { nslots = r.range(1, 2); segp = 20; objp = 35; faultp = 15; g.invalid = 20; p.cfg["exc"] = r.range(0, 6); nops = nops < 3 ? 3 : nops; }
    else if (prop == "C14") { nslots = r.range(2, 4); segp = 20; objp = 45; faultp = 30; gnew = true; g.invalid = 4; }
    if (prop == "C09" && r.chance(30)) { nslots = 2; objp = 20; }
    if (prop == "C10" && r.chance(30)) p.cfg["cold"] = 1;
    p.cfg["slots"] = nslots;
    if (r.chance(50)) g.big = false;
    if (r.chance(10)) segp = 80;
    if (r.chance(15)) g.alike = 40;
    if (r.permille(5)) { g.giant = g.big = true; nops = r.range(1, 6); }
    if (prop == "C19") { if (r.chance(40)) { g.giant = g.big = true; nops = r.range(1, 8); } else g.big = r.chance(50); }

    // memory of the world
    if (prop == "C01" || prop == "C02" || prop == "C08" || prop == "C14" || prop == "C03" || prop == "C20" || prop == "C23") {
        for (int i = 0; i < nslots; ++i) {
            int k = r.range(0, 99);
            p.cfg["mem" + std::to_string(i)] = k < 75 ? 0 : k < 87 ? 1 : 2;      // sim, heap, pool
        }
        if (r.chance(20)) p.cfg["maxsize"] = r.chance(20) ? r.range(0, 4) : r.range(5, 300);
        if (r.chance(20)) p.cfg["budget"] = r.range(0, 1200);
        p.cfg["pool"] = r.range(0, 2500);
    }
    if (prop == "C19") {
        for (int i = 0; i < nslots; ++i) { int k = r.range(0, 99); p.cfg["mem" + std::to_string(i)] = k < 85 ? 0 : k < 93 ? 1 : 2; }
        if (r.chance(5)) p.cfg["maxsize"] = r.range(5, 3000);
        if (r.chance(5)) p.cfg["budget"] = r.range(0, 6000);
        p.cfg["pool"] = r.range(0, 30000);
    }
    if (prop == "C11") {
        p.cfg["base"] = r.chance(35) ? 0 : 1;
        g.invalid = 2;
        Op b;
        b.kind = K::set_url;
        b.a = p.cfg["base"] ? g.url() : "";
        p.ops.push_back(b);
        // one setter per part
        std::vector<std::vector<K>> groups;
        int mode = r.range(0, 5);
        if (mode == 5) groups = { { K::set_origin } };
        else {
            groups = { { K::set_scheme } };
            if (mode == 4) groups.push_back({ K::set_authority });
            else {
                if (mode == 3) groups.push_back({ K::set_userinfo, K::set_userinfo_part });
                else { groups.push_back({ K::set_user, K::set_euser }); groups.push_back({ K::set_password, K::set_epassword, K::set_password_part }); }
                groups.push_back({ K::set_host, K::set_ehost });
                groups.push_back({ K::set_port, K::set_port_num, K::set_port_part });
            }
        }
        groups.push_back({ K::set_path });
        groups.push_back({ K::set_query, K::set_equery, K::set_query_part });
        groups.push_back({ K::set_fragment, K::set_efragment, K::set_fragment_part });
        for (auto& gr : groups) {
            if (r.chance(25)) continue;
            Op o;
            o.kind = r.pick(gr);
            for (int t = 0; t < 20; ++t) { o.a = g.arg(o.kind); if (!o.a.empty()) break; }
            if (o.a.empty() && o.kind != K::set_port_num) continue;
            if (o.kind == K::set_path && r.chance(70) && o.a[0] != '/') o.a = "/" + o.a;
            if (o.kind == K::set_port_num) { o.a = ""; o.i = (int)r.below(100000); }
            o.f = gen_fault(r, 25, false);
            p.ops.push_back(o);
        }
        int np = r.range(2, 5);
        for (int i = 0; i < np; ++i) {
            Op o;
            o.kind = K::permute;
            for (size_t x = 1; x < p.ops.size(); ++x) if (p.ops[x].kind != K::permute) o.a += (char)r.below(256);   // sort keys
            p.ops.push_back(o);
        }
        return p;
    }
    // starting URLs
    for (int i = 0; i < nslots; ++i) {
        if (r.chance(20)) continue;
        Op o;
        o.kind = r.chance(80) ? K::set_url : K::ctor_str;
        o.u = i;
        int save = g.invalid; g.invalid = 0;
        o.a = g.url();
        g.invalid = save;
        p.ops.push_back(o);
    }
    bool focus = r.chance(35);              // few kinds, many times
    std::vector<K> kinds;
    if (focus) { int n = r.range(1, 4); for (int i = 0; i < n; ++i) { Op o = gen_op(g, nslots, segp, objp); kinds.push_back(o.kind); } }
    bool const chain = prop == "C23" && r.chance(5);     // one call inside the other, many levels deep
    if (chain) {
        p.cfg["depth"] = r.range(4, 12);
        nops = r.range(4, 24);
        focus = true;
        static K const grows[] = { K::set_url, K::set_url, K::ctor_str, K::ctor_str, K::set_fragment, K::set_path, K::copy_assign, K::decode };
        kinds = { grows[r.below(8)] };
        g.invalid = 4;
    }
    for (int n = 0; n < nops; ++n) {
        if (prop == "C22" && (n == 0 || r.chance(25))) p.ops.push_back(environ());
        if (prop == "C23" && n + 1 < nops && r.chance(chain ? 90 : 50)) {          // the next calls happen during the one after this
            Op o;
            o.kind = K::preempt;
            int k = r.range(0, 99);
            o.u = k < 50 ? 0 : k < 70 ? 1 : k < 85 ? 2 : 3;
            o.i = r.chance(75) ? 0 : r.range(0, 3);
            o.j = r.range(1, 5);
            if (chain && r.chance(90)) { o.i = 0; o.j = 15; if (r.chance(80)) o.u = 0; }
            p.ops.push_back(o);
        }
        Op o = gen_op(g, nslots, segp, objp);
        if (focus && r.chance(chain ? 96 : 75)) {
            K k = r.pick(kinds);
            if (k != o.kind) {
                o.kind = k;
                o.a = g.arg(k);
                if (is_object(k)) o.j = (int)r.below(nslots);
            }
        }
        if (prop == "C06" && r.chance(45)) { o.kind = K::lookup; o.a = g.arg(o.kind); o.i = r.range(0, 63); o.j = r.range(0, 255); }
        else if (prop == "C06" && r.chance(50)) { static K const q[] = { K::set_query, K::set_equery, K::set_query_part, K::set_url }; o.kind = q[r.below(4)]; o.a = g.arg(o.kind); }
        if (prop == "C07" && r.chance(60)) { o.kind = K::decode; o.i = r.range(0, 9); o.j = r.range(0, 12); o.a = g.arg(K::lookup); }
        if (prop == "C08" && r.chance(12)) { o.kind = K::decode; o.i = r.range(0, 9); o.j = r.range(0, 12); o.a = g.arg(K::lookup); }
        if (prop == "C21" && r.chance(45)) { o.kind = r.chance(50) ? K::set_url : K::ctor_str; o.a = g.arg(K::set_url); o.i = r.range(0, 1); o.j = r.range(0, 1); }
        else if (prop == "C21" && r.chance(25)) { o.kind = K::read; o.a = ""; o.i = r.range(0, 400); }
        if (prop == "C22" || prop == "C23") {
            int k = r.range(0, 99);
            if (chain && r.chance(90)) k = 99;
            if (k < 10) { o.kind = K::read; o.i = (int)r.below(36) * 2; o.a = g.arg(r.chance(70) ? K::set_scheme : K::lookup); if (r.chance(60)) { static char const* const known[] = { "ftp", "file", "FILE", "http", "https", "ws", "wss" }; o.a = known[r.below(7)]; for (char& ch : o.a) if (r.chance(40)) ch = (char)(ch ^ 32); } }
            else if (k < 20) { o.kind = K::read; o.i = 1; o.a = g.arg(K::set_url); }
            else if (k < 30) { o.kind = K::lookup; o.a = g.arg(K::lookup); }
            else if (k < 36) { o.kind = K::decode; o.i = r.range(0, 9); o.j = r.range(0, 12); o.a = g.arg(K::lookup); }
        }
        if (prop == "C20") {
            int k = r.range(0, 99);
            if (k < 18) { o.kind = K::decode; o.i = r.range(0, 9); o.j = r.range(0, 12); o.a = g.arg(K::lookup); }
            else if (k < 30) { o.kind = K::read; o.a = g.arg(K::set_url); }
        }
        if (prop == "C19") {
            int k = r.range(0, 99);
            if (k < 12) { o.kind = K::read; o.a = g.arg(K::lookup); o.i = (int)r.below(1 << 20); }
            else if (k < 20) { o.kind = K::decode; o.a = g.arg(K::lookup); o.i = r.range(0, 9); o.j = r.range(0, 40); }
            else if (k < 25) {
                o.kind = K::grow;
                o.i = r.chance(70) ? r.range(20, 300) : r.range(300, 900);
                o.j = r.range(0, 63);
                bool wide = r.permille(8);
                if (wide) o.i = r.range(100, 250);
                o.a = g.encoded_n("", wide ? r.range(300, 900) : r.range(0, 30));
            }
        }
        if (prop == "C10" && r.chance(40)) { o.kind = K::read; o.i = (int)r.below(1 << 20); o.a = g.arg(K::lookup); }
        if (prop == "C09") {
            if (r.chance(40)) { o.kind = r.pick(FITTABLE); o.fit = r.range(-3, 3); o.a = ""; if (r.chance(30)) o.fit = -r.range(0, 30); }
        }
        o.f = gen_fault(r, faultp, gnew);
        o.retry = r.chance(65) ? 1 : 0;
        p.ops.push_back(o);
    }
    if ((prop == "C01" || prop == "C02") && r.permille(15)) p.cfg["pristine"] = 1;
    return p;
}

}
