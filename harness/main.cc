// Worker: runs cases of one check and reports what was observed.
#include "dlmon.hh"

#include <algorithm>
#include <csignal>
#include <cstdio>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sys/time.h>
#include <unistd.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MON_LSAN
#endif
#elif defined(__SANITIZE_ADDRESS__)
#define MON_LSAN
#endif
#ifdef MON_LSAN
#include <sanitizer/common_interface_defs.h>
#include <sanitizer/lsan_interface.h>
#endif

namespace M {

namespace {

std::map<std::string, CheckFn> &registry() {
    static std::map<std::string, CheckFn> r;
    return r;
}

int statusFd = -1;

void dumpLog();

void onTimer(int sig) {
    char buf[] = "\nHANG: case exceeded its time limit\n";
    if (sig == SIGALRM) {
        buf[0] = ' ';
    }
    auto r = write(2, buf, sizeof(buf) - 1);
    static_cast<void>(r);
    dumpLog();
    _exit(79);
}

void arm(int cpu, int wall) {
    struct itimerval t {};
    t.it_value.tv_sec = cpu;
    setitimer(ITIMER_PROF, &t, nullptr);
    t.it_value.tv_sec = wall;
    setitimer(ITIMER_REAL, &t, nullptr);
}

std::string esc(std::string const &s) {
    std::string r = "\"";
    char buf[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += static_cast<char>(c);
        } else if (c == '\n') {
            r += "\\n";
        } else if (c < 0x20 || c >= 0x7f) {
            snprintf(buf, sizeof(buf), "\\u%04x", c);
            r += buf;
        } else {
            r += static_cast<char>(c);
        }
    }
    return r + "\"";
}

} // namespace

#ifdef MON_LSAN
// Note: libclingo itself leaks in rare situations; leaks are checked where lifecycles are tested.
extern "C" char const *__asan_default_options() {
    return "leak_check_at_exit=0:detect_stack_use_after_return=1:strict_string_checks=1:check_initialization_order=1";
}
#endif

std::ostringstream *currentLog{nullptr};
std::function<void()> abandon;

namespace {

void dumpLog() {
    static bool once = false;
    if (currentLog != nullptr && !once) {
        once = true;
        auto s = "\ncase:\n" + currentLog->str().substr(0, 5000) + "\n";
        auto r = write(2, s.data(), s.size());
        static_cast<void>(r);
    }
}

void onAbort(int sig) {
    dumpLog();
    signal(sig, SIG_DFL);
    raise(sig);
}

} // namespace

CheckReg::CheckReg(char const *name, CheckFn fn) { registry()[name] = fn; }

bool leakCheck() {
#ifdef MON_LSAN
    OutScope os;
    return __lsan_do_recoverable_leak_check() != 0;
#else
    return false;
#endif
}

int workerMain(int argc, char **argv) {
    std::string check, out, status;
    u64 seed = 1, from = 0, stride = 1, count = 1;
    double budget = 1e9;
    i64 only = -1;
    int cpu = 60, wall = 240;
    bool thorough = false, verbose = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&]() -> std::string {
            if (i + 1 >= argc) {
                throw std::runtime_error("missing argument");
            }
            return argv[++i];
        };
        if (a == "--seed") {
            seed = std::stoull(next());
        } else if (a == "--from") {
            from = std::stoull(next());
        } else if (a == "--stride") {
            stride = std::stoull(next());
        } else if (a == "--count") {
            count = std::stoull(next());
        } else if (a == "--only") {
            only = std::stoll(next());
        } else if (a == "--out") {
            out = next();
        } else if (a == "--status") {
            status = next();
        } else if (a == "--budget") {
            budget = std::stod(next());
        } else if (a == "--cpu") {
            cpu = std::stoi(next());
        } else if (a == "--wall") {
            wall = std::stoi(next());
        } else if (a == "--thorough") {
            thorough = true;
        } else if (a == "-v") {
            verbose = true;
        } else {
            check = a;
        }
    }
    auto it = registry().find(check);
    if (it == registry().end()) {
        std::cerr << "unknown check " << check << std::endl;
        return 78;
    }
#ifdef MON_LSAN
    __sanitizer_set_death_callback(dumpLog);
#endif
    signal(SIGABRT, onAbort);
    signal(SIGPROF, onTimer);
    signal(SIGALRM, onTimer);
    std::ofstream file;
    if (!out.empty()) {
        file.open(out, std::ios::trunc);
    }
    std::ostream &o = out.empty() ? std::cout : file;
    if (!status.empty()) {
        statusFd = open(status.c_str(), O_CREAT | O_RDWR | O_TRUNC, 0644);
    }
    std::map<std::string, u64> counters;
    std::vector<u64> hashes;
    std::set<std::string> tags;
    std::vector<std::string> samples;
    u64 cases = 0, nontrivial = 0, violations = 0;
    struct timespec t0 {};
    clock_gettime(CLOCK_MONOTONIC, &t0);
    auto one = [&](u64 idx) {
        Case c{idx, hashStr(check, 1469598103934665603ULL) ^ (seed * 0x9e3779b97f4a7c15ULL) ^ (idx * 0xd1b54a32d192ed03ULL)};
        c.rng.next();
        c.thorough = thorough;
        c.seed = seed;
        c.hashes = &hashes;
        c.tags = &tags;
        auto nh = hashes.size();
        if (statusFd >= 0) {
            auto s = std::to_string(idx) + "\n";
            auto r = pwrite(statusFd, s.data(), s.size(), 0);
            static_cast<void>(r);
        }
        arm(cpu, wall);
        currentLog = &c.log;
        std::string msg;
        try {
            it->second(c);
        } catch (Violation const &e) {
            msg = e.what();
        } catch (std::exception const &e) {
            msg = std::string("unexpected error: ") + e.what();
        }
        arm(0, 0);
        if (std::getenv("DLMON_LEAK") != nullptr && leakCheck()) {
            std::cerr << "LEAK after case " << idx << "\n" << c.log.str() << std::endl;
        }
        ++cases;
        if (hashes.size() > nh) {
            ++nontrivial;
        }
        for (auto const &[k, v] : c.counters) {
            counters[k] += v;
        }
        if (!msg.empty()) {
            ++violations;
            o << "{\"violation\":" << esc(msg) << ",\"case\":" << idx << ",\"log\":" << esc(c.log.str()) << "}\n"
              << std::flush;
        } else if (samples.size() < 2 || (samples.size() < 4 && idx % 97 == 3)) {
            samples.push_back(c.log.str().substr(0, 1200));
        }
        if (verbose) {
            std::cerr << "case " << idx << "\n" << c.log.str() << "\n";
            for (auto const &[k, v] : c.counters) {
                std::cerr << "  " << k << "=" << v << "\n";
            }
            std::cerr << (msg.empty() ? "ok" : msg) << std::endl;
        }
        return violations < 3;
    };
    bool stopped = false;
    auto summarize = [&]() {
        std::sort(hashes.begin(), hashes.end());
        hashes.erase(std::unique(hashes.begin(), hashes.end()), hashes.end());
        o << "{\"summary\":{\"cases\":" << cases << ",\"nontrivial\":" << nontrivial << ",\"violations\":" << violations
          << ",\"budget_hit\":" << (stopped ? "true" : "false") << ",\"counters\":{";
        bool comma = false;
        for (auto const &[k, v] : counters) {
            o << (comma ? "," : "") << esc(k) << ":" << v;
            comma = true;
        }
        o << "},\"tags\":[";
        comma = false;
        for (auto const &t : tags) {
            o << (comma ? "," : "") << esc(t);
            comma = true;
        }
        o << "],\"samples\":[";
        comma = false;
        for (auto const &t : samples) {
            o << (comma ? "," : "") << esc(t);
            comma = true;
        }
        o << "],\"hashes\":[";
        comma = false;
        for (auto const &h : hashes) {
            o << (comma ? "," : "") << h;
            comma = true;
        }
        o << "]}}" << std::endl;
    };
    abandon = [&]() {
        summarize();
        _exit(74);
    };
    if (only >= 0) {
        one(static_cast<u64>(only));
    } else {
        for (u64 i = 0; i < count; ++i) {
            struct timespec t {};
            clock_gettime(CLOCK_MONOTONIC, &t);
            if (static_cast<double>(t.tv_sec - t0.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec - t0.tv_nsec) > budget) {
                stopped = true;
                break;
            }
            if (!one(from + i * stride)) {
                break;
            }
        }
    }
    summarize();
    return violations > 0 ? 1 : 0;
}

} // namespace M

int main(int argc, char **argv) { return M::workerMain(argc, argv); }
