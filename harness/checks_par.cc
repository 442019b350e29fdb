// C13, C14: parallel solving.
#include "dlmon.hh"

#include <thread>

namespace M {

namespace {

using Full = std::map<std::string, int>;

std::string fullKey(Model const &m) {
    auto s = join(m.atoms) + " |";
    for (auto const &[k, v] : m.ival) {
        s += " " + k + "=" + std::to_string(v);
    }
    return s;
}

//! Terms added to the model have to agree with the values of the reporting thread.
void checkTerms(Model const &m) {
    std::set<std::string> terms(m.dlterms.begin(), m.dlterms.end());
    std::set<std::string> expected;
    for (auto const &[k, v] : m.ival) {
        expected.insert("dl(" + k + "," + std::to_string(v) + ")");
    }
    for (auto const &t : terms) {
        if (expected.erase(t) == 0) {
            violate("term " + t + " in the model of thread " + std::to_string(m.thread) + " does not match its values");
        }
    }
    if (!expected.empty()) {
        violate("term " + *expected.begin() + " is missing in the model of thread " + std::to_string(m.thread));
    }
}

std::vector<std::string> parallelArgs(Rng &rng, int threads, char const *models) {
    auto args = randomClaspArgs(rng, false, true);
    args.insert(args.begin(), {models, "--warn=none"});
    args.push_back("-t" + std::to_string(threads) + (rng.chance(50) ? ",split" : ",compete"));
    if (rng.chance(30)) {
        args.push_back("--distribute=" + rng.pick<std::string>({"conflict,global,4,1000000", "all,global,10", "short,local,5", "0"}));
    }
    if (rng.chance(20)) {
        args.push_back("--integrate=" + rng.pick<std::string>({"all,1024,all", "active,64,ring", "gp,1024,cube"}));
    }
    if (rng.chance(20)) {
        args.emplace_back("--global-restarts=" + rng.pick<std::string>({"1", "5", "no"}));
    }
    return args;
}

Inst parallelInstance(Case &c, int size) {
    auto &rng = c.rng;
    if (rng.chance(60)) {
        c.count("scheduling instances");
        return generateJobs(rng, rng.range(3, 3 + size), rng.range(2, 2 + size), rng.chance(70));
    }
    GenOpt go;
    go.minVars = 4;
    go.maxVars = 9;
    go.maxBody = 4;
    go.maxHead = 16;
    go.maxChoice = 6 + 2 * size;
    go.maxRules = 5;
    c.count("random instances");
    return generate(rng, go);
}

} // namespace

CHECK(C13) {
    auto &rng = c.rng;
    races = 0;
    int kind = rng.range(0, 9);
    if (kind < 6) {
        // one program solved repeatedly with all threads busy
        int threads = rng.range(2, c.thorough ? 8 : 5);
        auto args = parallelArgs(rng, threads, rng.chance(50) ? "0" : "40");
        args.emplace_back("--solve-limit=1500");
        auto opts = randomDlOpts(rng, threads);
        auto inst = parallelInstance(c, 2);
        c.log << "% options: " << optsStr(opts) << "\n% clingo: " << join(args) << "\n" << inst.dl();
        Mon mon;
        mon.delay = rng.pick({0, 0, 5, 20, 50});
        std::array<std::atomic<u64>, 64> active{};
        mon.onCallback = [&](char const *, clingo_propagate_control_t *ctl) {
            if (ctl != nullptr) {
                active[clingo_propagate_control_thread_id(ctl) % 64]++;
            }
        };
        DLRun run{opts, args, &mon};
        run.withStats = rng.chance(70);
        run.parse(inst.dl());
        run.ground();
        int rounds = rng.range(1, 3);
        std::set<unsigned> reporting;
        u64 models = 0;
        for (int i = 0; i < rounds; ++i) {
            run.solveMode = rng.range(0, 2);
            run.solve({}, [&](Clingo::Model &, Model &m) {
                keyOf(m.atoms, m.ival, inst.atoms, inst.vars);
                reporting.insert(m.thread);
                // all threads might be queried
                for (unsigned t = 0; t < 9; ++t) {
                    if (t == m.thread) {
                        for (auto const &v : inst.vars) {
                            size_t idx = 0;
                            Scope s;
                            if (clingodl_lookup_symbol(run.theory, Clingo::parse_term(v.c_str()).to_c(), &idx)) {
                                clingodl_assignment_has_value(run.theory, t, idx);
                            }
                        }
                    }
                }
                return ++models < 300;
            });
            if (i + 1 < rounds) {
                auto n = rng.range(1, 6);
                auto mode = std::to_string(n) + (n > 1 && rng.chance(50) ? ",split" : "");
                run.ctl().configuration()["solve"]["parallel_mode"] = mode.c_str();
            }
        }
        u64 busy = 0;
        for (auto const &a : active) {
            busy += a > 0;
        }
        c.count("models", models);
        c.count("threads that ran the theory", busy);
        c.count("threads that reported models", reporting.size());
        c.count("callbacks", mon.nPropagate + mon.nCheck + mon.nUndo + mon.nDecide);
        c.count("clauses", mon.nClauses);
        c.count("undo during propagation", mon.nNested);
        if (busy > 1) {
            c.count("runs with concurrent threads");
            c.nontrivial(c.log.str());
        }
    } else {
        // sessions, possibly concurrently with others
        int n = kind < 8 ? 1 : 2;
        std::vector<std::unique_ptr<World>> worlds;
        for (int i = 0; i < n; ++i) {
            World::Cfg cfg;
            cfg.threads = true;
            cfg.rdl = rng.chance(15);
            cfg.ops = rng.range(3, 8);
            // Note: libclingo 5.6.2 crashes if parallel searches are stopped right at the start
            cfg.maxKind = 1;
            worlds.push_back(std::make_unique<World>(c.index, rng.next(), cfg, c.thorough));
            worlds.back()->mon.delay = rng.pick({0, 5, 20});
        }
        std::vector<std::thread> ts;
        auto work = [](World *w) {
            try {
                while (w->op()) {
                }
            } catch (std::exception const &) {
                // answers are not judged here
                w->c.count("sessions that ended early");
            }
        };
        for (int i = 1; i < n; ++i) {
            ts.emplace_back(work, worlds[i].get());
        }
        work(worlds[0].get());
        for (auto &t : ts) {
            t.join();
        }
        u64 solves = 0;
        for (int i = 0; i < n; ++i) {
            worlds[i]->finish(c, i);
            c.count("callbacks", worlds[i]->mon.nPropagate + worlds[i]->mon.nCheck + worlds[i]->mon.nUndo + worlds[i]->mon.nDecide);
            solves += worlds[i]->solves;
        }
        c.count("sessions", n);
        c.count("solve calls in sessions", solves);
        if (solves > 0) {
            c.nontrivial(c.log.str());
        }
    }
    if (races > 0) {
        violate("data race reported by ThreadSanitizer");
    }
}

CHECK(C14) {
    auto &rng = c.rng;
    auto inst = parallelInstance(c, 1);
    c.log << inst.dl();
    Keys keys;
    Full byComp[2];
    // sequential
    for (int cc = 0; cc < 2; ++cc) {
        Opts opts;
        if (cc == 0) {
            opts.emplace_back("compute-components", "no");
        }
        DLRun run{opts, {"0", "--warn=none"}};
        run.parse(inst.dl());
        run.ground();
        u64 n = 0;
        auto out = run.solve({}, [&](Clingo::Model &, Model &) { return ++n < 2500; });
        if (n >= 2500) {
            c.count("skipped (too many answers)");
            return;
        }
        for (auto const &m : out.models) {
            byComp[cc][fullKey(m)]++;
        }
        auto ks = keysOf(out, inst.atoms, inst.vars);
        if (cc == 1) {
            compareKeys(keys, ks, "sequential runs");
        }
        keys = ks;
    }
    if (keys.size() < 300 && rng.chance(30)) {
        RefOpt ro;
        ro.limit = 4000;
        auto ref = reference(inst, ro);
        if (ref.complete) {
            compareKeys(ref.keys, keys, "sequential enumeration");
            c.count("sequential runs compared with the reference");
        }
    }
    int rounds = c.thorough ? 8 : 4;
    for (int i = 0; i < rounds; ++i) {
        int threads = rng.range(2, rng.chance(20) ? 8 : 4);
        auto args = parallelArgs(rng, threads, "0");
        auto opts = randomDlOpts(rng, threads);
        if (rng.chance(10)) {
            opts.emplace_back("shift-constraints", "yes");
        }
        int cc = 1;
        for (auto const &[k, v] : opts) {
            if (k == "compute-components") {
                cc = v == "yes";
            }
        }
        Mon mon;
        mon.delay = rng.pick({0, 0, 10, 40});
        c.log << "% options: " << optsStr(opts) << "\n% clingo: " << join(args) << " delay " << mon.delay << "\n";
        std::array<std::atomic<u64>, 64> active{};
        mon.onCallback = [&](char const *, clingo_propagate_control_t *ctl) {
            if (ctl != nullptr) {
                active[clingo_propagate_control_thread_id(ctl) % 64]++;
            }
        };
        DLRun run{opts, args, &mon};
        run.withStats = rng.chance(50);
        run.solveMode = rng.range(0, 2);
        run.parse(inst.dl());
        run.ground();
        std::set<unsigned> reporting;
        bool again = false;
        try {
            // a second call with a different number of threads has to give the same answers
            int calls = rng.chance(20) ? 2 : 1;
            for (int j = 0; j < calls; ++j) {
                if (j > 0) {
                    // Note: changing the number of threads here confuses libclingo 5.6.2
                    c.log << "% again\n";
                    again = true;
                    c.count("second calls");
                }
                auto out = run.solve();
                Full full;
                for (auto const &m : out.models) {
                    checkTerms(m);
                    full[fullKey(m)]++;
                    reporting.insert(m.thread);
                    c.count("models of other threads", m.thread > 0);
                }
                compareKeys(keys, keysOf(out, inst.atoms, inst.vars), "parallel enumeration");
                compareKeys(byComp[cc], full, "parallel enumeration (with values)");
                if (out.sat != !keys.empty() || out.unsat != keys.empty() || !out.exhausted) {
                    violate("wrong result flags");
                }
                c.count("models", out.models.size());
            }
        } catch (Violation const &) {
            // does libclingo get it right without the theory?
            for (int j = 0; j < 10; ++j) {
                nextPlain = true;
                DLRun plain{{}, args};
                nextPlain = false;
                plain.solveMode = run.solveMode;
                plain.parse(inst.dl());
                plain.ground();
                bool broken = false;
                try {
                    compareKeys(keys, keysOf(plain.solve(), inst.atoms, inst.vars), "simple propagator");
                    if (again) {
                        compareKeys(keys, keysOf(plain.solve(), inst.atoms, inst.vars), "simple propagator");
                    }
                } catch (Violation const &) {
                    broken = true;
                }
                if (broken) {
                    c.count("skipped (libclingo fails without the theory, too)");
                    return;
                }
            }
            throw;
        }
        u64 busy = 0;
        for (auto const &a : active) {
            busy += a > 0;
        }
        c.count("runs");
        c.count("runs with concurrent threads", busy > 1);
        c.count("runs with models of several threads", reporting.size() > 1);
        c.count("clauses", mon.nClauses);
        c.count("undo during propagation", mon.nNested);
        for (auto const &[k, v] : opts) {
            c.tags->insert(k + "=" + v);
        }
    }
    if (keys.size() > 1) {
        c.nontrivial(inst.dl());
    }
}

} // namespace M
