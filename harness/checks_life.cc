// C18, C21, C23: lifecycles, interruption, and isolation.
#include "dlmon.hh"

#include <chrono>
#include <thread>

namespace M {

CHECK(C18) {
    auto &rng = c.rng;
    int n = rng.pick({1, 1, 2, 3});
    std::vector<std::unique_ptr<World>> worlds;
    std::vector<bool> live;
    for (int i = 0; i < n; ++i) {
        World::Cfg cfg;
        cfg.rdl = rng.chance(25);
        cfg.jobs = rng.chance(30);
        cfg.ops = rng.range(2, c.thorough ? 14 : 9);
        worlds.push_back(std::make_unique<World>(c.index, rng.next(), cfg, c.thorough));
        live.push_back(true);
    }
    int left = n;
    int solves = 0;
    try {
        while (left > 0) {
            int i = rng.range(0, n - 1);
            if (!live[i]) {
                continue;
            }
            if (!worlds[i]->op() || rng.chance(3)) {
                live[i] = false;
                --left;
                worlds[i]->close();
                c.count("theories destroyed while others are alive", left > 0);
            }
        }
    } catch (...) {
        for (int i = 0; i < n; ++i) {
            worlds[i]->finish(c, i);
        }
        throw;
    }
    for (int i = 0; i < n; ++i) {
        worlds[i]->finish(c, i);
        solves += worlds[i]->solves;
    }
    worlds.clear();
    c.count("theories", n);
    c.count("solve calls", solves);
    if (leakCheck()) {
        violate("memory leak");
    }
    c.count("leak checks", MON_HAS_LSAN);
    if (solves > 0) {
        c.nontrivial(c.log.str());
    }
}

namespace {

//! Stop enumerations that take long at some point.
void longSearch(Case &c) {
    auto &rng = c.rng;
    int threads = rng.chance(40) ? rng.range(2, 4) : 1;
    auto args = randomClaspArgs(rng, false, threads > 1);
    args.insert(args.begin(), {"0", "--warn=none"});
    if (threads > 1) {
        args.push_back("-t" + std::to_string(threads) + (rng.chance(50) ? ",split" : ",compete"));
    }
    auto opts = randomDlOpts(rng, threads);
    auto inst = generateJobs(rng, rng.range(5, 7), rng.range(4, 5), false);
    c.log << "% options: " << optsStr(opts) << "\n% clingo: " << join(args) << "\n% long search\n" << inst.dl();
    DLRun run{opts, args};
    run.withStats = rng.chance(50);
    run.parse(inst.dl());
    run.ground();
    int rounds = rng.range(1, 3);
    for (int i = 0; i < rounds; ++i) {
        class Handler : public Clingo::SolveEventHandler {
          public:
            DLRun &run;
            Inst &inst;
            std::mutex mutex;
            std::string error;
            std::set<std::string> keys;
            std::atomic<u64> models{0}, afterwards{0};
            std::atomic<bool> done{false};
            u64 stop{0};
            bool on_model(Clingo::Model &model) override {
                OutScope os;
                auto m = run.extract(model);
                std::lock_guard<std::mutex> g(mutex);
                try {
                    auto key = keyOf(m.atoms, m.ival, inst.atoms, inst.vars);
                    if (!keys.insert(key).second) {
                        violate("answer repeated: " + key);
                    }
                } catch (std::exception const &e) {
                    error = e.what();
                }
                if (done) {
                    ++afterwards;
                }
                return ++models != stop;
            }
            void on_statistics(Clingo::UserStatistics step, Clingo::UserStatistics accu) override {
                OutScope os;
                run.reportStats(step, accu);
            }
            Handler(DLRun &r, Inst &i) : run{r}, inst{i} {}
        } handler{run, inst};
        int kind = rng.range(0, 3);
        int wait = rng.pick({0, 100, 1000, 5000, 20000});
        c.log << "% stop " << kind << " after " << wait << "us\n";
        OutScope os;
        Clingo::SolveResult r;
        auto start = std::chrono::steady_clock::now();
        if (kind == 3) {
            handler.stop = rng.range(1, 20);
            r = run.ctl().solve(Clingo::SymbolicLiteralSpan{}, &handler, false, false).get();
        } else {
            auto handle = run.ctl().solve(Clingo::SymbolicLiteralSpan{}, &handler, true, false);
            std::this_thread::sleep_for(std::chrono::microseconds(wait));
            start = std::chrono::steady_clock::now();
            if (kind == 0) {
                handle.cancel();
            } else {
                run.ctl().interrupt();
            }
            r = handle.get();
        }
        handler.done = true;
        auto sec = std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count();
        if (sec > 25) {
            violate("the search did not stop promptly (" + std::to_string(sec) + " s)");
        }
        if (!handler.error.empty()) {
            violate(handler.error);
        }
        if (handler.afterwards > 0) {
            violate("models were reported after the search has ended");
        }
        if (kind != 3 && r.is_unsatisfiable() && !r.is_satisfiable() && handler.models == 0) {
            // Note: libclingo 5.6.2 does this in rare cases without the theory, too
            c.count("stopped searches reported as unsatisfiable");
        }
        else if (r.is_unsatisfiable() || r.is_satisfiable() != (handler.models > 0)) {
            violate("wrong result of a stopped search: satisfiable " + std::to_string(r.is_satisfiable()) +
                    ", unsatisfiable " + std::to_string(r.is_unsatisfiable()) + ", interrupted " +
                    std::to_string(r.is_interrupted()) + ", exhausted " + std::to_string(r.is_exhausted()) + ", " +
                    std::to_string(handler.models) + " models");
        }
        c.count("long searches");
        c.count("long searches stopped early", !r.is_exhausted());
        c.count("models", handler.models);
        if (kind != 0 && kind != 3 && !r.is_interrupted()) {
            return; // a pending interrupt would affect the next call
        }
    }
    // the control is still usable
    run.ctl().configuration()["solve"]["models"] = "3";
    u64 models = 0;
    auto out = run.solve({}, [&](Clingo::Model &, Model &m) {
        keyOf(m.atoms, m.ival, inst.atoms, inst.vars);
        ++models;
        return true;
    });
    if (!out.sat || models == 0 || models > 3 || out.interrupted) {
        violate("wrong result after stopping a search");
    }
    c.count("searches after stopped ones");
    c.nontrivial(c.log.str());
}

} // namespace

CHECK(C21) {
    auto &rng = c.rng;
    if (rng.chance(12)) {
        longSearch(c);
        return;
    }
    World::Cfg cfg;
    cfg.rdl = rng.chance(10);
    cfg.threads = rng.chance(50);
    cfg.ops = rng.range(4, c.thorough ? 14 : 10);
    World w{c.index, rng.next(), cfg, c.thorough};
    if (!runWorld(c, w)) {
        return;
    }
    if (w.solves > 1 && c.counters["solve calls ended early"] > 0) {
        c.nontrivial(c.log.str());
    }
}

//! Not a property: shows how libclingo behaves without the theory.
CHECK(PLAIN) {
    auto &rng = c.rng;
    if (rng.chance(12)) {
        return;
    }
    World::Cfg cfg;
    cfg.plain = true;
    cfg.rdl = rng.chance(10);
    cfg.threads = rng.chance(50);
    cfg.ops = rng.range(4, c.thorough ? 14 : 10);
    World w{c.index, rng.next(), cfg, c.thorough};
    runWorld(c, w);
}

CHECK(C23) {
    auto &rng = c.rng;
    races = 0;
    int n = rng.pick({2, 2, 3, 4});
    std::vector<World::Cfg> cfgs;
    std::vector<u64> seeds;
    for (int i = 0; i < n; ++i) {
        World::Cfg cfg;
        cfg.deterministic = true;
        cfg.rdl = rng.chance(35);
        cfg.jobs = rng.chance(60);
        cfg.ops = rng.range(2, 7);
        cfgs.push_back(cfg);
        seeds.push_back(rng.next());
    }
    auto make = [&](int i) { return std::make_unique<World>(c.index, seeds[i], cfgs[i], c.thorough); };
    // in threads
    auto concurrent = [&]() {
        c.log << "%%% in threads\n";
        std::vector<std::unique_ptr<World>> worlds;
        std::vector<std::thread> threads;
        std::vector<std::string> errors(n);
        for (int i = 0; i < n; ++i) {
            worlds.push_back(make(i));
        }
        for (int i = 0; i < n; ++i) {
            threads.emplace_back([&, i]() {
                try {
                    while (worlds[i]->op()) {
                    }
                    if (i % 2 == 0) {
                        worlds[i]->close();
                    }
                } catch (std::exception const &e) {
                    errors[i] = e.what();
                    if (errors[i].empty()) {
                        errors[i] = "unknown";
                    }
                }
            });
        }
        for (auto &t : threads) {
            t.join();
        }
        for (int i = 0; i < n; ++i) {
            if (!errors[i].empty()) {
                violate("world " + std::to_string(i) + " fails in a thread of its own: " + errors[i]);
            }
        }
        return worlds;
    };
    std::vector<std::unique_ptr<World>> together;
    // Note: the first concurrent use in a process might initialize data shared by all theories
    static int calls = 0;
    bool early = rng.chance(40);
    if (calls++ == 0) {
        early = true;
        c.count("concurrent use first in a process");
    }
    if (early) {
        together = concurrent();
        c.count("concurrent use first");
    }
    std::vector<std::vector<std::string>> alone;
    u64 clauses = 0;
    for (int i = 0; i < n; ++i) {
        auto w = make(i);
        try {
            while (w->op()) {
            }
        } catch (...) {
            w->finish(c, i);
            throw;
        }
        w->finish(c, i);
        clauses += w->mon.nClauses;
        alone.push_back(w->results);
    }
    auto compare = [&](int i, World const &w, char const *how) {
        for (size_t j = 0; j < std::max(alone[i].size(), w.results.size()); ++j) {
            auto a = j < alone[i].size() ? alone[i][j] : "(nothing)";
            auto b = j < w.results.size() ? w.results[j] : "(nothing)";
            if (a != b) {
                violate("world " + std::to_string(i) + " behaves differently " + how + ": solve call " + std::to_string(j) +
                        "\nalone: " + a.substr(0, 1500) + "\ntogether: " + b.substr(0, 1500));
            }
        }
        c.count("solve calls compared", alone[i].size());
    };
    // alternating on one thread
    {
        c.log << "%%% alternating\n";
        std::vector<std::unique_ptr<World>> worlds;
        std::vector<int> live;
        for (int i = 0; i < n; ++i) {
            worlds.push_back(make(i));
            live.push_back(i);
        }
        while (!live.empty()) {
            auto k = rng.range(0, static_cast<int>(live.size()) - 1);
            if (!worlds[live[k]]->op()) {
                if (rng.chance(50)) {
                    worlds[live[k]]->close();
                    c.count("theories destroyed while others are in use", live.size() > 1);
                }
                live.erase(live.begin() + k);
            } else {
                c.count("operations alternating");
            }
        }
        for (int i = 0; i < n; ++i) {
            compare(i, *worlds[i], "if used alternately with others");
        }
    }
    if (!early) {
        together = concurrent();
    }
    for (int i = 0; i < n; ++i) {
        compare(i, *together[i], "in a thread of its own");
    }
    if (races > 0) {
        violate("data race between independent theories reported by ThreadSanitizer");
    }
    c.count("theories", n);
    if (clauses > 0) {
        c.nontrivial(c.log.str());
    }
}

} // namespace M
