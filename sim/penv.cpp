#include "penv.hpp"
#include <cctype>
#include <cerrno>
#include <cfenv>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <chrono>
#include <clocale>
#include <exception>
#include <locale>
#include <new>
#include <sys/time.h>
#include <unistd.h>
namespace sim { namespace penv {

char const* const locale_names[LOCALES] = { "C", "Turkish", "Latin-1", "Greek" };
bool on = false;
uint64_t consults = 0, flips = 0;
static State st;
static std::locale* given;
static int rounding_was, rounding_given;
static std::new_handler new_given;
static std::terminate_handler terminate_given;
static char const* meddled;          // a setting of the process which was written during the call, also if it was put back
static locale_t thread_loc;          // what the code inside gave uselocale()
static bool own;                     // the simulator itself is changing the environment
static void global(std::locale const& l) { own = true; std::locale::global(l); own = false; }

// Character tables of single-byte locales which are in use (a subset of their letters), for -128 .. 255
struct Tables {
    unsigned short cls[384]; int32_t low[384], up[384];
    unsigned short const* pc; int32_t const *pl, *pu;
};
static Tables tab[LOCALES];
static int idx(int c) { return c + 128; }
static void put(Tables& t, int u, unsigned short cls, int low, int up) {
    t.cls[idx(u)] = cls; t.low[idx(u)] = low; t.up[idx(u)] = up;
    if (u >= 128 && u != 255) { t.cls[idx(u - 256)] = cls; t.low[idx(u - 256)] = low; t.up[idx(u - 256)] = up; }
}
static void build() {
    constexpr unsigned short UP = _ISupper | _ISalpha | _ISprint | _ISgraph | _ISalnum, LO = _ISlower | _ISalpha | _ISprint | _ISgraph | _ISalnum,
        PU = _ISpunct | _ISprint | _ISgraph;
    for (int l = 0; l < LOCALES; ++l) {
        Tables& t = tab[l];
        std::memset(&t, 0, sizeof t);
        for (int c = -128; c < 0; ++c) t.low[idx(c)] = t.up[idx(c)] = c;       // as glibc has it
        for (int c = 0; c < 256; ++c) {
            unsigned short k = 0;
            int lo = c, up = c;
            if (c < 128) {
                if (c >= 'A' && c <= 'Z') { k = UP; lo = c + 32; }
                else if (c >= 'a' && c <= 'z') { k = LO; up = c - 32; }
                else if (c >= '0' && c <= '9') k = _ISdigit | _ISxdigit | _ISprint | _ISgraph | _ISalnum;
                else if (c == ' ') k = _ISspace | _ISprint | _ISblank;
                else if (c == '\t') k = _ISspace | _IScntrl | _ISblank;
                else if (c >= 9 && c <= 13) k = _ISspace | _IScntrl;
                else if (c < 32 || c == 127) k = _IScntrl;
                else k = PU;
                if ((c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f')) k |= _ISxdigit;
            }
            else if (l) {
                if (c < 0xA0) k = _IScntrl;
                else if (c == 0xA0) k = _ISspace | _ISprint;
                else if (c < 0xC0) k = PU;
                else if (c == 0xD7 || c == 0xF7) k = PU;
                else if (l == 3 && c == 0xFF) k = 0;
                else if (c < 0xE0) { k = UP; lo = c == 0xDF ? c : c + 32; if (c == 0xDF) k = LO; }
                else { k = LO; up = c == 0xFF ? c : c - 32; }
            }
            put(t, c, k, lo, up);
        }
        if (l == 1) {
            put(t, 'I', UP, 0xFD, 'I'); put(t, 0xFD, LO, 0xFD, 'I');
            put(t, 'i', LO, 'i', 0xDD); put(t, 0xDD, UP, 'i', 0xDD);
        }
        t.pc = t.cls + 128; t.pl = t.low + 128; t.pu = t.up + 128;
    }
}

// the same for code which asks the global C++ locale
struct Punct : std::numpunct<char> {
    int l;
    explicit Punct(int l_) : l(l_) {}
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return l == 1 ? '.' : l == 2 ? ' ' : '\''; }
    std::string do_grouping() const override { return l == 2 ? "\3\2" : l == 3 ? "\1" : "\3"; }
    std::string do_truename() const override { return "evet"; }
    std::string do_falsename() const override { return "hay"; }
};
static std::ctype_base::mask mask_of(Tables const& t, int c) {
    unsigned short k = t.cls[idx(c)];
    std::ctype_base::mask m = 0;
    if (k & _ISupper) m |= std::ctype_base::upper;
    if (k & _ISlower) m |= std::ctype_base::lower;
    if (k & _ISalpha) m |= std::ctype_base::alpha;
    if (k & _ISdigit) m |= std::ctype_base::digit;
    if (k & _ISxdigit) m |= std::ctype_base::xdigit;
    if (k & _ISspace) m |= std::ctype_base::space;
    if (k & _ISprint) m |= std::ctype_base::print;
    if (k & _IScntrl) m |= std::ctype_base::cntrl;
    if (k & _ISpunct) m |= std::ctype_base::punct;
    if (k & _ISblank) m |= std::ctype_base::blank;
    return m;
}
struct Ctype : std::ctype<char> {
    int l;
    static mask const* make(int l) { static mask m[LOCALES][256]; for (int c = 0; c < 256; ++c) m[l][c] = mask_of(tab[l], c); return m[l]; }
    explicit Ctype(int l_) : std::ctype<char>(make(l_)), l(l_) {}
    char do_tolower(char c) const override { ++consults; return (char)tab[l].low[idx((unsigned char)c)]; }
    char do_toupper(char c) const override { ++consults; return (char)tab[l].up[idx((unsigned char)c)]; }
    char const* do_tolower(char* a, char const* b) const override { for (; a < b; ++a) *a = do_tolower(*a); return b; }
    char const* do_toupper(char* a, char const* b) const override { for (; a < b; ++a) *a = do_toupper(*a); return b; }
};
struct Collate : std::collate<char> {
    int l;
    explicit Collate(int l_) : l(l_) {}
    std::string fold(char const* a, char const* b) const { std::string s(a, b); for (char& c : s) c = (char)tab[l].low[idx((unsigned char)c)]; return s; }
    int do_compare(char const* a, char const* b, char const* c, char const* d) const override { ++consults; int r = fold(a, b).compare(fold(c, d)); return r < 0 ? -1 : r > 0; }
    std::string do_transform(char const* a, char const* b) const override { ++consults; return fold(a, b); }
};
static std::locale* cxx[LOCALES];

static void init() {
    if (cxx[0]) return;
    build();
    for (int l = 0; l < LOCALES; ++l)
        cxx[l] = l ? new std::locale(std::locale(std::locale(std::locale::classic(), new Punct(l)), new Ctype(l)), new Collate(l)) : new std::locale(std::locale::classic());
}
void enter(State const& s) {
    init();
    st = s;
    consults = 0;
    global(*cxx[s.loc]);
    given = cxx[s.loc];
    meddled = nullptr;
    thread_loc = LC_GLOBAL_LOCALE;
    new_given = std::get_new_handler();
    terminate_given = std::get_terminate();
    rounding_was = std::fegetround();
    static int const modes[] = { FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO };
    rounding_given = modes[s.noise % 4];
    std::fesetround(rounding_given);
    errno = (int)(s.noise / 4 % 40);
    on = true;
}
char const* leave() {
    on = false;
    char const* r = meddled;
    if (thread_loc != LC_GLOBAL_LOCALE) r = "the locale of the thread";
    if (std::fegetround() != rounding_given) r = "the rounding mode";
    std::fesetround(rounding_was);
    if (!(std::locale() == *given)) r = "the global locale";
    global(std::locale::classic());
    if (std::get_new_handler() != new_given) r = "the new handler";
    if (std::get_terminate() != terminate_given) r = "the terminate handler";
    std::set_new_handler(new_given);
    std::set_terminate(terminate_given);
    return r;
}
// one question asked by library code; another thread may change the locale at any time
static Tables& ask() {
    if (++consults == (uint64_t)st.flip_at) { st.loc = st.flip_to; ++flips; global(*cxx[st.loc]); given = cxx[st.loc]; }
    return tab[thread_loc == LC_GLOBAL_LOCALE ? st.loc : 0];
}
static uint64_t noise() {
    ++consults;
    uint64_t z = (st.noise += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static bool ok(int c) { return c >= -128 && c < 256; }

} }
using namespace sim::penv;
extern "C" {
#define CLASS(f, bit) int __real_##f(int); int __wrap_##f(int c) { return on ? (ok(c) ? ask().cls[idx(c)] & bit : 0) : __real_##f(c); }
CLASS(isalpha, _ISalpha) CLASS(isdigit, _ISdigit) CLASS(isalnum, _ISalnum) CLASS(isxdigit, _ISxdigit) CLASS(isspace, _ISspace) CLASS(isupper, _ISupper)
CLASS(islower, _ISlower) CLASS(ispunct, _ISpunct) CLASS(isprint, _ISprint) CLASS(isgraph, _ISgraph) CLASS(iscntrl, _IScntrl) CLASS(isblank, _ISblank)
int __real_tolower(int); int __wrap_tolower(int c) { return on ? (ok(c) ? ask().low[idx(c)] : c) : __real_tolower(c); }
int __real_toupper(int); int __wrap_toupper(int c) { return on ? (ok(c) ? ask().up[idx(c)] : c) : __real_toupper(c); }
unsigned short const** __real___ctype_b_loc(); unsigned short const** __wrap___ctype_b_loc() { return on ? &ask().pc : __real___ctype_b_loc(); }
int32_t const** __real___ctype_tolower_loc(); int32_t const** __wrap___ctype_tolower_loc() { return on ? &ask().pl : __real___ctype_tolower_loc(); }
int32_t const** __real___ctype_toupper_loc(); int32_t const** __wrap___ctype_toupper_loc() { return on ? &ask().pu : __real___ctype_toupper_loc(); }
static int folded(char const* a, char const* b, size_t n) {
    for (; n--; ++a, ++b) {
        int x = ask().low[idx((unsigned char)*a)], y = ask().low[idx((unsigned char)*b)];
        if (x != y) return x - y;
        if (!*a) return 0;
    }
    return 0;
}
int __real_strcasecmp(char const*, char const*); int __wrap_strcasecmp(char const* a, char const* b) { return on ? folded(a, b, (size_t)-1) : __real_strcasecmp(a, b); }
int __real_strncasecmp(char const*, char const*, size_t); int __wrap_strncasecmp(char const* a, char const* b, size_t n) { return on ? folded(a, b, n) : __real_strncasecmp(a, b, n); }
int __real_strcoll(char const*, char const*); int __wrap_strcoll(char const* a, char const* b) { return on ? folded(a, b, (size_t)-1) : __real_strcoll(a, b); }

static char const* variable() {
    static char const* const v[] = { nullptr, "", "1", "yes", "0", "4096", "/tmp", "tr_TR", "debug" };
    return v[noise() % 9];
}
char* __real_getenv(char const*); char* __wrap_getenv(char const* n) { return on ? const_cast<char*>(variable()) : __real_getenv(n); }
char* __real_secure_getenv(char const*); char* __wrap_secure_getenv(char const* n) { return on ? const_cast<char*>(variable()) : __real_secure_getenv(n); }
time_t __real_time(time_t*); time_t __wrap_time(time_t* t) { if (!on) return __real_time(t); time_t r = (time_t)(noise() >> 32); if (t) *t = r; return r; }
clock_t __real_clock(); clock_t __wrap_clock() { return on ? (clock_t)(noise() >> 20) : __real_clock(); }
int __real_clock_gettime(clockid_t, timespec*);
int __wrap_clock_gettime(clockid_t c, timespec* t) { if (!on) return __real_clock_gettime(c, t); t->tv_sec = (time_t)(noise() >> 32); t->tv_nsec = (long)(noise() % 1000000000); return 0; }
int __real_gettimeofday(timeval*, void*);
int __wrap_gettimeofday(timeval* t, void* z) { if (!on) return __real_gettimeofday(t, z); t->tv_sec = (time_t)(noise() >> 32); t->tv_usec = (long)(noise() % 1000000); return 0; }
int __real_rand(); int __wrap_rand() { return on ? (int)(noise() >> 33) : __real_rand(); }
long __real_random(); long __wrap_random() { return on ? (long)(noise() >> 33) : __real_random(); }
pid_t __real_getpid(); pid_t __wrap_getpid() { return on ? (pid_t)(noise() % 100000 + 1) : __real_getpid(); }
int64_t __real__ZNSt6chrono3_V212system_clock3nowEv(); int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv() { return on ? (int64_t)(noise() >> 1) : __real__ZNSt6chrono3_V212system_clock3nowEv(); }
int64_t __real__ZNSt6chrono3_V212steady_clock3nowEv(); int64_t __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { return on ? (int64_t)(noise() >> 1) : __real__ZNSt6chrono3_V212steady_clock3nowEv(); }
unsigned __real__ZNSt13random_device9_M_getvalEv(void*); unsigned __wrap__ZNSt13random_device9_M_getvalEv(void* p) { return on ? (unsigned)noise() : __real__ZNSt13random_device9_M_getvalEv(p); }

// settings of the whole process: another thread sees every change of them, also one which is undone before the call ends
char* __real_setlocale(int, char const*);
char* __wrap_setlocale(int c, char const* n) {
    if (!on) return __real_setlocale(c, n);
    static char const* const name[LOCALES] = { "C", "tr_TR.ISO8859-9", "en_US.ISO8859-1", "el_GR.ISO8859-7" };
    ++consults;
    if (n && std::strcmp(n, name[st.loc])) meddled = "the C locale";
    return const_cast<char*>(name[st.loc]);
}
locale_t __real_uselocale(locale_t);
locale_t __wrap_uselocale(locale_t l) {
    if (!on) return __real_uselocale(l);
    ++consults;
    locale_t r = thread_loc;
    if (l) thread_loc = l;
    return r;
}
lconv* __real_localeconv();
lconv* __wrap_localeconv() {
    static char sep[2] = ".", com[2] = ",", grp[2] = "\3";
    static lconv l;
    if (!on) return __real_localeconv();
    ++consults;
    l = *__real_localeconv();
    if (st.loc) { l.decimal_point = com; l.thousands_sep = sep; l.grouping = grp; }
    return &l;
}
int __real_setenv(char const*, char const*, int); int __wrap_setenv(char const* n, char const* v, int o) { if (!on) return __real_setenv(n, v, o); meddled = "an environment variable"; return 0; }
int __real_unsetenv(char const*); int __wrap_unsetenv(char const* n) { if (!on) return __real_unsetenv(n); meddled = "an environment variable"; return 0; }
int __real_putenv(char*); int __wrap_putenv(char* s) { if (!on) return __real_putenv(s); meddled = "an environment variable"; return 0; }
void __real_srand(unsigned); void __wrap_srand(unsigned s) { if (!on) return __real_srand(s); meddled = "the state of rand()"; }
void __real_srandom(unsigned); void __wrap_srandom(unsigned s) { if (!on) return __real_srandom(s); meddled = "the state of random()"; }
}
std::locale real_global(std::locale const&) asm("__real__ZNSt6locale6globalERKS_");
std::locale wrap_global(std::locale const&) asm("__wrap__ZNSt6locale6globalERKS_");
std::locale wrap_global(std::locale const& l) {
    if (on && !own && !(std::locale() == l)) meddled = "the global locale";
    return real_global(l);
}
