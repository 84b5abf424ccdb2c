// sim run PROP FIRST STEP COUNT SECONDS OUT     explore seeds FIRST, FIRST+STEP, ...
// sim cold PROP FIRST STEP COUNT SECONDS OUT    the same, every run in a process of its own
// sim replay FILE                                execute one plan
// sim gen PROP SEED                              print a plan
#include "world.hpp"
#include <chrono>
#include <csignal>
#include <cstdio>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace sim;

static int const CPU_LIMIT = 20;      // seconds of CPU time for one run
static void on_prof(int) {
    static char const m[] = "HANG\n";
    (void)!write(1, m, sizeof m - 1);
    _exit(78);
}
static void arm_timer() {
    struct itimerval t = {};
    t.it_value.tv_sec = CPU_LIMIT;
    setitimer(ITIMER_PROF, &t, nullptr);
}
static std::string jstr(std::string const& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r + "\"";
}
int main(int argc, char** argv) {
    std::signal(SIGPROF, on_prof);
    std::string cmd = argc > 1 ? argv[1] : "";
    if (cmd == "gen" && argc == 4) { std::cout << to_text(generate(argv[2], std::stoull(argv[3]))); return 0; }
    if (cmd == "replay" && argc == 3) {
        std::ifstream in(argv[2]);
        std::stringstream s;
        s << in.rdbuf();
        Plan p = from_text(s.str());
        if (p.get("pristine")) start_pristine();
        arm_timer();
        auto r = execute(p);
        if (r.violated) { std::cout << "VIOLATED " << r.label << "\n" << r.what << "\ntrace " << std::hex << r.trace << "\n"; return 10; }
        std::cout << "HELD trace " << std::hex << r.trace << "\n";
        return 0;
    }
    if (cmd == "cold" && argc == 8) {
        // the library has never been used in the process a run gets
        uint64_t seed = std::stoull(argv[3]), step = std::stoull(argv[4]), count = std::stoull(argv[5]), n = 0;
        double secs = std::stod(argv[6]);
        std::string out = argv[7];
        int fd = open((out + ".cur").c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644), rc = 0;
        auto t0 = std::chrono::steady_clock::now();
        for (; n < count && !rc; ++n, seed += step) {
            if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
            (void)!pwrite(fd, &seed, sizeof seed, 0);
            pid_t pid = fork();
            if (pid == 0) {
                arm_timer();
                Plan p = generate(argv[2], seed);
                auto r = execute(p);
                if (r.violated) { std::cout << "VIOLATED " << r.label << "\n" << r.what << "\n." << std::endl; _exit(10); }
                _exit(0);
            }
            int st = 0;
            while (waitpid(pid, &st, 0) < 0) {}
            if (!WIFEXITED(st) || WEXITSTATUS(st)) rc = WIFEXITED(st) ? WEXITSTATUS(st) : 99;
        }
        std::ofstream(out) << "{\"runs\":" << n << "}\n";
        return rc;
    }
    if (cmd == "run" && argc == 8) {
        std::string prop = argv[2];
        if (prop == "C01" || prop == "C02") start_pristine();
        uint64_t first = std::stoull(argv[3]), step = std::stoull(argv[4]), count = std::stoull(argv[5]);
        double secs = std::stod(argv[6]);
        std::string out = argv[7];
        int fd = open((out + ".cur").c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
        std::unordered_set<uint64_t> st, traces;
        states = &st;
        std::map<std::string, uint64_t> xs;
        xstats = &xs;
        auto t0 = std::chrono::steady_clock::now();
        auto el = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
        uint64_t n = 0, nontrivial = 0, digest = FNV0, seed = first;
        bool bad = false;
        RunResult r;
        for (; n < count && !bad; ++n, seed += step) {
            if (n % 16 == 0 && el() > secs) break;
            (void)!pwrite(fd, &seed, sizeof seed, 0);
            arm_timer();
            Plan p = generate(prop, seed);
            r = execute(p);
            if (r.violated) { bad = true; break; }
            digest = (digest ^ r.trace) * 1099511628211ull;
            if (r.nontrivial) { ++nontrivial; traces.insert(r.trace); }
        }
        struct itimerval z = {};
        setitimer(ITIMER_PROF, &z, nullptr);
        std::ofstream o(out);
        o << "{\"runs\":" << n << ",\"nontrivial\":" << nontrivial << ",\"digest\":\"" << std::hex << digest << std::dec << "\",\"seconds\":" << el()
          << ",\"ops\":" << stats.ops << ",\"checks\":" << stats.checks << ",\"requests\":" << stats.requests
          << ",\"rejected\":" << stats.rejected << ",\"nomem\":" << stats.nomem << ",\"retries_ok\":" << stats.retries_ok;
        o << ",\"fired\":{";
        for (int i = 1; i < 6; ++i) o << "\"" << fault_names[i] << "\":" << stats.fired[i] << ",";
        o << "\"budget\":" << stats.fired_budget << ",\"max_size\":" << stats.fired_maxsize << ",\"pool\":" << stats.fired_pool << "}";
        o << ",\"op_count\":{";
        for (int i = 0, f = 0; i < (int)K::COUNT; ++i) if (stats.op_count[i]) { o << (f++ ? "," : "") << "\"" << kind_names[i] << "\":" << stats.op_count[i]; }
        o << "},\"probes\":{";
        { int f = 0; for (auto& p : stats.probes) o << (f++ ? "," : "") << jstr(p.first) << ":" << p.second; }
        o << "}";
        for (auto& x : xs) o << ",\"x_" << x.first << "\":" << x.second;
        if (bad) o << ",\"violation\":{\"seed\":" << seed << ",\"label\":" << jstr(r.label) << ",\"what\":" << jstr(r.what) << "}";
        o << "}\n";
        std::ofstream b(out + ".bin", std::ios::binary);
        uint64_t ns = st.size();
        b.write((char*)&ns, 8);
        for (uint64_t x : st) b.write((char*)&x, 8);
        for (uint64_t x : traces) b.write((char*)&x, 8);
        return bad ? 10 : 0;
    }
    std::cerr << "usage\n";
    return 2;
}
