// Shared declarations of the simulator. Nothing in this header depends on /repo.
#pragma once
#include <cstdint>
#include <cstddef>
#include <map>
#include <optional>
#include <string>
#include <vector>

namespace sim {

//---------------------------------------------------------------- randomness
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); }
    bool chance(int pct) { return (int)below(100) < pct; }
    bool permille(int pm) { return (int)below(1000) < pm; }
    template<class C> auto const& pick(C const& c) { return c[below(c.size())]; }
};

inline uint64_t fnv(uint64_t h, std::string const& s) {
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    h ^= 0xff; h *= 1099511628211ull;
    return h;
}
constexpr uint64_t FNV0 = 1469598103934665603ull;

//---------------------------------------------------------------- plans
enum class K {
    // whole URL
    set_url, set_origin, set_scheme, set_authority, set_userinfo, set_userinfo_part,
    set_user, set_euser, set_password, set_epassword, set_password_part,
    set_host, set_ehost, set_port, set_port_num, set_port_part,
    set_path, set_query, set_equery, set_query_part,
    set_fragment, set_efragment, set_fragment_part,
    normalize, normalize_scheme,
    // segments
    seg_insert, seg_insert_enc, seg_replace, seg_replace_enc, seg_erase, seg_erase_range,
    // objects
    ctor_default, ctor_str, copy_ctor, copy_assign, move_ctor, move_assign,
    // reads
    read, decode, lookup,
    // pool
    pool_alloc, pool_free, pool_cont, pool_string, pool_copy,
    // ordering
    permute,
    // many small additions to one part
    grow,
    // threads: after i scheduling points run thread j (u: 0 any access, 1 shared accesses)
    preempt,
    // the process environment from here on: i locales, j noise, u when the locale changes during the next call
    environ,
    COUNT
};
extern char const* const kind_names[];
K kind_from(std::string const&);
inline bool is_setter(K k) { return k <= K::normalize_scheme; }
inline bool is_seg(K k) { return k >= K::seg_insert && k <= K::seg_erase_range; }
inline bool is_object(K k) { return k >= K::ctor_default && k <= K::move_assign; }

enum class F { none, alloc, starve, gnew, gstarve, total };   // fault kinds
extern char const* const fault_names[];
struct Fault { F kind = F::none; int k = 0; int len = 0; };    // fail requests k .. k+len-1

struct Op {
    K kind = K::read;
    int u = 0;                 // slot
    int i = 0, j = 0;          // positions, other slot, sizes
    std::string a;             // argument
    int fit = INT32_MIN;       // if set: pad the argument so that the result ends at capacity + fit
    Fault f;
    int retry = 1;             // repeat after a memory failure
};

struct Plan {
    std::string prop;
    uint64_t seed = 0;
    std::map<std::string, long> cfg;
    std::vector<Op> ops;
    long get(std::string const& k, long d = 0) const { auto it = cfg.find(k); return it == cfg.end() ? d : it->second; }
};
std::string to_text(Plan const&);
Plan from_text(std::string const&);
std::string hex(std::string const&);
std::string unhex(std::string const&);
std::string show(Op const&);                 // for humans
std::string quote(std::string const&);       // printable

//---------------------------------------------------------------- reference model
// Parts of a URI-reference, written from RFC 3986 and the documentation only.
struct M {
    bool scheme_p = false; std::string scheme;
    bool auth = false;
    bool at = false; std::string user; bool colon = false; std::string pw;
    std::string host;
    bool port_p = false; std::string port;
    std::string path;
    bool query_p = false; std::string query;
    bool frag_p = false; std::string frag;

    std::string text() const;
    std::string authority() const;
    std::string origin() const;
    void clear_auth() { auth = at = colon = port_p = false; user = pw = host = port = ""; }
};

namespace ref {
enum HostType { none, name, ipv4, ipv6, ipvfuture };
bool is_ipv4(std::string const&);
bool is_ipv6(std::string const&);      // without brackets
bool is_ipvfuture(std::string const&); // without brackets
HostType host_type(std::string const&);
std::optional<M> parse(std::string const&);          // URI-reference or nothing
bool parse_authority(std::string const&, M&);        // fills the authority parts
bool valid_scheme(std::string const&);
bool chars_ok(std::string const&, char const* extra);
bool path_ok(std::string const& path, bool scheme, bool authority);
std::string pct_encode(std::string const&, char const* extra);
std::string pct_decode(std::string const&);
bool split_path(std::string const& path, std::vector<std::string>& out);  // returns: absolute
std::string join_path(bool absolute, std::vector<std::string> const& v);
std::vector<std::pair<std::string, std::string>> split_query(M const&);

enum Verdict { accept, reject, unknown };
struct Result { Verdict v = unknown; M m; long index = -1; };  // index: position designated by the returned iterator
Result apply(M const&, Op const&);      // setters and segment edits
}

//---------------------------------------------------------------- generation
Plan generate(std::string const& prop, uint64_t seed);

}
