// Reads of a URL or view.
#pragma once
#include "world.hpp"
namespace sim {

// Every read, without memory of its own. Results go to fixed storage.
constexpr int NCOMMON = 33;                  // reads of URLs and views alike
constexpr int NREADS = 36;
inline uint64_t hv(string_view s) { uint64_t h = FNV0 ^ s.size(); for (char ch : s) { h ^= (unsigned char)ch; h *= 1099511628211ull; } return h; }
template<class S> uint64_t seg_hash(S s, bool rev) {
    uint64_t h = s.size() * 3 + s.empty();
    size_t guard = 0;
    auto b = s.begin(); auto e = s.end();
    if (!rev) for (auto it = b; it != e && guard < 1000000; ++it, ++guard) h = h * 31 + hv((*it).encoded_string());
    else for (auto it = e; it != b && guard < 1000000; ++guard) { --it; h = h * 31 + hv(it->encoded_string()); }
    return h;
}
template<class S> uint64_t par_hash(S s, bool rev) {
    uint64_t h = s.size() * 3 + s.empty();
    size_t guard = 0;
    auto b = s.begin(); auto e = s.end();
    if (!rev) for (auto it = b; it != e && guard < 1000000; it++, ++guard) h = h * 31 + hv((*it).encoded_key()) * 7 + hv(it->encoded_value());
    else for (auto it = e; it != b && guard < 1000000; ++guard) { it--; h = h * 31 + hv((*it).encoded_key()) * 7 + hv(it->encoded_value()); }
    return h;
}
template<class S> uint64_t find_hash(S s, string_view k) {
    auto it = s.find(k);
    if (it == s.end()) return 1;
    return hv(it->encoded_key()) * 7 + hv((*it).encoded_value());
}
template<class U> uint64_t one_read(U& u, int which, string_view key) {
    switch (which) {
    case 0: return hv(u.encoded_url());
    case 1: return hv(u.encoded_origin());
    case 2: return hv(u.scheme());
    case 3: return u.has_authority();
    case 4: return hv(u.encoded_authority());
    case 5: return u.has_userinfo();
    case 6: return hv(u.encoded_userinfo());
    case 7: return hv(u.userinfo_part());
    case 8: return hv(u.encoded_user());
    case 9: return hv(u.encoded_password());
    case 10: return (uint64_t)u.host_type();
    case 11: return hv(u.encoded_host_and_port());
    case 12: return hv(u.encoded_host());
    case 13: return hv(u.port());
    case 14: return hv(u.port_part());
    case 15: return hv(u.encoded_path());
    case 16: return hv(u.encoded_query());
    case 17: return hv(u.query_part());
    case 18: return hv(u.encoded_fragment());
    case 19: return hv(u.fragment_part());
    case 20: return u.size();
    case 21: return hv(string_view(u.data(), u.size()));
    case 22: return seg_hash(u.segments(), false);
    case 23: return seg_hash(u.segments(), true);
    case 24: return par_hash(u.params(), false);
    case 25: return par_hash(u.params(), true);
    case 26: return u.params().contains(key);
    case 27: return u.params().count(key);
    case 28: return find_hash(u.params(), key);
    case 29: return u.segments().begin() == u.segments().end();
    case 30: return u.params().begin() == u.params().end();
    case 31: {       // sequences and iterators which belong to nothing
        auto none = u.segments();
        none = decltype(none)();
        decltype(none.begin()) a, b;
        return none.empty() * 2u + none.size() * 64 + (a == b) * 4u + !(a != b) * 8u + (none.begin() == none.end()) * 16u + (none.begin() == u.segments().begin());
    }
    case 32: {
        auto none = u.params();
        none = decltype(none)();
        decltype(none.begin()) a, b;
        return none.empty() * 2u + none.size() * 64 + (a == b) * 4u + !(a != b) * 8u + (none.begin() == none.end()) * 16u + none.contains(key) * 32u + none.count(key) * 128 + (none.find(key) != none.end()) + (none.begin() == u.params().begin()) * 7u;
    }
    default: return 0;
    }
}
inline uint64_t one_read_url(urls::url_base& u, int which, string_view key) {
    if (which == 33) return u.capacity();
    if (which == 34) return hv(u.password_part());
    if (which == 35) return (uint64_t)(unsigned char)u.data()[u.size()];
    return one_read(u, which, key);
}

using SimString = std::basic_string<char, std::char_traits<char>, SimAlloc<char>>;
template<class U, class A>
auto decode_call(U& u, Op const& op, A const& a, bool& done) -> std::basic_string<char, std::char_traits<char>, A> {
    using S = std::basic_string<char, std::char_traits<char>, A>;
    done = true;
    string_view key(op.a.data(), op.a.size());
    switch (op.i % 10) {
    case 0: return u.user(a);
    case 1: return u.password(a);
    case 2: return u.host(a);
    case 3: return u.query(a);
    case 4: return u.fragment(a);
    case 5: {
        auto s = u.segments();
        size_t n = s.size();
        if (!n) break;
        auto it = s.begin();
        for (size_t k = (size_t)op.j % n; k--;) ++it;
        return it->string(a);
    }
    case 6: case 7: {
        auto s = u.params();
        size_t n = s.size();
        if (!n) break;
        auto it = s.begin();
        for (size_t k = (size_t)op.j % n; k--;) ++it;
        return op.i % 10 == 6 ? it->key(a) : it->value(a);
    }
    default: return u.params().at(key, a);
    }
    done = false;
    return S(a);
}

}
