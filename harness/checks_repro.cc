// C25: equal runs in different processes behave equally.
#include "dlmon.hh"

#include <csignal>
#include <cstring>
#include <fstream>
#include <sys/personality.h>
#include <sys/wait.h>
#include <unistd.h>

namespace M {

namespace {

//! Leave a pattern in the part of the stack used next.
__attribute__((noinline)) void dirty(int value) {
    volatile char buf[256 * 1024];
    memset(const_cast<char *>(buf), value, sizeof(buf));
}

std::vector<World::Cfg> configs(Rng &rng, std::vector<u64> &seeds) {
    std::vector<World::Cfg> cfgs;
    for (int i = 0, n = rng.range(3, 6); i < n; ++i) {
        World::Cfg cfg;
        cfg.deterministic = true;
        cfg.rdl = rng.chance(30);
        cfg.jobs = rng.chance(50);
        cfg.ops = rng.range(2, 7);
        cfgs.push_back(cfg);
        seeds.push_back(rng.next());
    }
    return cfgs;
}

//! What is done in the child process.
void child(Case &c, int k, char const *path) {
    std::vector<u64> seeds;
    auto cfgs = configs(c.rng, seeds);
    // shift addresses
    std::vector<std::string> fill;
    if (k > 0) {
        Rng r{c.index * 31 + static_cast<u64>(k)};
        for (int i = 0, n = r.range(0, 400); i < n; ++i) {
            fill.emplace_back(static_cast<size_t>(r.range(1, 3000)), 'x');
        }
        for (size_t i = 0; i < fill.size(); i += 2) {
            fill[i] = std::string();
        }
    }
    std::ofstream out{path};
    u64 clauses = 0;
    for (size_t i = 0; i < cfgs.size(); ++i) {
        World w{c.index, seeds[i], cfgs[i], c.thorough};
        out << "world " << i << "\n";
        for (;;) {
            dirty(k == 0 ? 0 : k == 1 ? 0xa5 : 0xff);
            bool more = false;
            try {
                more = w.op();
            } catch (std::exception const &e) {
                out << "fails: " << e.what() << "\n";
            }
            if (!more) {
                break;
            }
        }
        for (auto &r : w.results) {
            out << "solve\n" << r << "\n";
        }
        clauses += w.mon.nClauses;
    }
    out << "clauses " << clauses << "\nend\n";
}

struct Output {
    std::vector<std::string> parts;
    u64 clauses{0};
    bool complete{false};
};

Output run(Case &c, int k) {
    char path[] = "/tmp/dlmon.XXXXXX";
    int fd = mkstemp(path);
    if (fd < 0) {
        throw std::runtime_error("cannot create temporary file");
    }
    close(fd);
    std::vector<std::string> args{"/proc/self/exe", "C25", "--seed", "0", "--only", std::to_string(c.index), "--out", "/dev/null"};
    args[3] = std::to_string(c.seed);
    if (c.thorough) {
        args.emplace_back("--thorough");
    }
    std::vector<std::string> env;
    for (char **e = environ; *e != nullptr; ++e) {
        if (std::strncmp(*e, "MALLOC_", 7) != 0 && std::strncmp(*e, "GLIBC_TUNABLES", 14) != 0) {
            env.emplace_back(*e);
        }
    }
    env.push_back("DLMON_CHILD=" + std::to_string(k));
    env.push_back(std::string("DLMON_CHILD_OUT=") + path);
    if (k == 1) {
        env.push_back("MALLOC_PERTURB_=" + std::to_string(1 + c.index % 255));
        env.push_back("DLMON_PAD=" + std::string(1 + (c.index * 97) % 5000, 'p'));
    } else if (k == 2) {
        env.push_back("MALLOC_PERTURB_=" + std::to_string(255 - c.index % 255));
        env.push_back("GLIBC_TUNABLES=glibc.malloc.tcache_count=0:glibc.malloc.mmap_threshold=" + std::to_string(200 + c.index % 4000));
        env.push_back("MALLOC_TOP_PAD_=65536");
    }
    std::vector<char *> a, e;
    for (auto &x : args) {
        a.push_back(x.data());
    }
    for (auto &x : env) {
        e.push_back(x.data());
    }
    a.push_back(nullptr);
    e.push_back(nullptr);
    auto pid = fork();
    if (pid < 0) {
        throw std::runtime_error("cannot fork");
    }
    if (pid == 0) {
        if (k == 0) {
            personality(ADDR_NO_RANDOMIZE);
        }
        execve("/proc/self/exe", a.data(), e.data());
        _exit(127);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    Output res;
    {
        std::ifstream in{path};
        std::string line;
        while (std::getline(in, line)) {
            if (line == "solve" || line.rfind("world ", 0) == 0) {
                res.parts.emplace_back();
            }
            if (line.rfind("clauses ", 0) == 0) {
                res.clauses = std::stoull(line.substr(8));
            } else if (line == "end") {
                res.complete = true;
            } else {
                res.parts.back() += line + "\n";
            }
        }
    }
    unlink(path);
    if (!res.complete || !WIFEXITED(st) || WEXITSTATUS(st) != 0) {
        violate("process " + std::to_string(k) + " terminates with status " + std::to_string(st));
    }
    return res;
}

} // namespace

CHECK(C25) {
    if (auto const *k = std::getenv("DLMON_CHILD"); k != nullptr) {
        child(c, std::atoi(k), std::getenv("DLMON_CHILD_OUT"));
        return;
    }
    auto a = run(c, 0);
    static char const *how[] = {"", "with other addresses and other garbage on the heap and the stack",
                                "with a different allocator configuration"};
    for (int k = 1; k < 3; ++k) {
        auto b = run(c, k);
        for (size_t i = 0; i < std::max(a.parts.size(), b.parts.size()); ++i) {
            auto x = i < a.parts.size() ? a.parts[i] : "(nothing)";
            auto y = i < b.parts.size() ? b.parts[i] : "(nothing)";
            if (x != y) {
                violate("a run in a process " + std::string(how[k]) + " differs in part " + std::to_string(i) + "\nfirst: " +
                        x.substr(0, 1500) + "\nother: " + y.substr(0, 1500));
            }
        }
        c.count("processes compared");
        c.count("parts compared", b.parts.size());
    }
    c.count("clauses added", a.clauses);
    std::string all;
    for (auto &x : a.parts) {
        all += x;
    }
    c.log << all.substr(0, 4000);
    if (a.clauses > 0) {
        c.nontrivial(all);
    }
}

} // namespace M
