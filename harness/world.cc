// Theories that are used step by step (lifecycles, interruption, isolation).
#include "dlmon.hh"

#include <algorithm>
#include <chrono>
#include <thread>

namespace M {

World::World(u64 index, u64 seed, Cfg const &cfg, bool thorough) : c{index, seed}, cfg{cfg}, seed{seed} {
    c.thorough = thorough;
    mon.trackClauses = false;
    mon.onCallback = [this](char const *cb, clingo_propagate_control_t *ctl) {
        static_cast<void>(cb);
        static_cast<void>(ctl);
        callback();
    };
}

void World::callback() {
    if (interruptIn > 0 && --interruptIn == 0) {
        clingo_control_interrupt(run->ctl().to_c());
    }
}

World::~World() { close(); }

void World::close() {
    OutScope os;
    s.reset();
    run.reset();
}

void World::finish(Case &parent, int number) {
    parent.log << "%%% world " << number << "\n" << c.log.str();
    for (auto const &[k, n] : c.counters) {
        parent.count(k, n);
    }
}

void World::create() {
    auto &rng = c.rng;
    int threads = cfg.threads ? rng.range(1, 4) : 1;
    auto args = randomClaspArgs(rng, false, cfg.threads);
    args.insert(args.begin(), {"0", "--warn=none"});
    if (threads > 1) {
        args.push_back("-t" + std::to_string(threads) + (rng.chance(50) ? ",split" : ",compete"));
    }
    opts = randomDlOpts(rng, threads, cfg.heuristics);
    if (rng.chance(25)) {
        opts.emplace_back("shift-constraints", "yes");
    }
    if (cfg.rdl) {
        opts.emplace_back("rdl", "yes");
    }
    c.log << "% options: " << optsStr(opts) << "\n% clingo: " << join(args) << "\n";
    mon.hashTrace = cfg.deterministic;
    nextPlain = cfg.plain;
    run = std::make_unique<DLRun>(opts, args, &mon);
    nextPlain = false;
    run->plainCallback = [this]() { callback(); };
    run->scaleReals = true;
    run->withStats = rng.chance(50);
    run->destroyTheoryFirst = rng.chance(50);
    GenOpt go;
    go.maxExternals = cfg.multi ? 2 : 0;
    go.maxVars = 4;
    go.maxBody = 2;
    go.maxHead = 4;
    go.maxChoice = 3;
    go.maxRules = 2;
    go.body = !cfg.rdl;
    s = std::make_unique<Session>(c, *run, go, cfg.threads);
    s->nThreads = threads;
    s->checkEnv = !cfg.plain;
    if (cfg.rdl) {
        bool strict = rng.chance(50);
        s->post = [&rng, strict](Inst &inst) { return makeReal(rng, inst, strict); };
    }
}

void World::record(SolveOut const &out) {
    if (!cfg.deterministic) {
        return;
    }
    std::ostringstream o;
    o << out.sat << out.unsat << out.unknown << out.exhausted << " " << mon.trace << " " << mon.nPropagate << " "
      << mon.nClauses << " " << mon.nDecide;
    for (auto const &m : out.models) {
        o << "\n" << join(m.atoms) << " |";
        for (auto const &[k, v] : m.ival) {
            o << " " << k << "=" << v;
        }
        o << " | " << join(m.dlterms);
    }
    if (run->withStats) {
        for (auto const *root : {"user_step", "user_accu"}) {
            auto st = readStats(run->ctl(), root);
            o << "\n" << root << st.present;
            auto add = [&](std::map<std::string, double> const &vals) {
                for (auto const &[k, v] : vals) {
                    if (k.find("(s)") == std::string::npos) {
                        o << " " << k << "=" << v;
                    }
                }
            };
            add(st.values);
            for (auto const &t : st.threads) {
                add(t);
            }
        }
    }
    results.push_back(o.str());
}

void World::full() {
    auto &rng = c.rng;
    run->solveMode = rng.range(0, 2);
    if (cfg.threads) {
        s->randomThreads();
    }
    if (cfg.deterministic) {
        auto out = s->solve();
        ++solves;
        answers += static_cast<int>(out.models.size());
        record(out);
        return;
    }
    auto n = s->solveCompare("complete solve call");
    c.log << "% solved\n";
    if (n < 0) {
        done = cfg.ops;
        return;
    }
    ++solves;
    answers += n;
}

void World::checkPartial(SolveOut const &out, RefResult const &ref, std::string const &what, bool async) {
    auto keys = keysOf(out, s->inst.atoms, s->inst.vars);
    for (auto const &[k, n] : keys) {
        auto it = ref.keys.find(k);
        if (it == ref.keys.end()) {
            violate(what + ": reported answer " + k + " is no answer");
        }
        if (n > it->second) {
            violate(what + ": answer " + k + " reported repeatedly");
        }
    }
    if (out.sat && out.unsat) {
        violate(what + ": both satisfiable and unsatisfiable");
    }
    if (out.sat != !out.models.empty()) {
        violate(what + (out.sat ? ": satisfiable but no model was reported" : ": not satisfiable but a model was reported"));
    }
    if (async && out.unsat && out.models.empty() && !ref.keys.empty()) {
        // Note: libclingo 5.6.2 does this in rare cases without the theory, too
        c.count("stopped searches reported as unsatisfiable");
        ++solves;
        return;
    }
    if (out.unsat && !ref.keys.empty()) {
        violate(what + ": unsatisfiable but there are answers");
    }
    if (out.exhausted && keys.size() != ref.keys.size()) {
        violate(what + ": search space exhausted but " + std::to_string(keys.size()) + " of " +
                std::to_string(ref.keys.size()) + " answers reported");
    }
    if (!out.exhausted) {
        c.count("solve calls ended early");
    }
    if (out.interrupted) {
        c.count("solve calls interrupted");
    }
    ++solves;
    answers += static_cast<int>(out.models.size());
}

void World::partial() {
    auto &rng = c.rng;
    auto ref = s->expect();
    if (!ref.complete) {
        done = cfg.ops;
        return;
    }
    run->solveMode = rng.range(0, 2);
    int kind = rng.range(0, cfg.deterministic ? 2 : cfg.maxKind);
    int n = rng.range(0, 4);
    std::string what = "partial solve call (kind " + std::to_string(kind) + ", n " + std::to_string(n) + ")";
    c.log << "% " << what << "\n";
    SolveOut out;
    auto &assumptions = s->assumptions;
    Clingo::SymbolicLiteralSpan ass{assumptions.data(), assumptions.size()};
    auto result = [&out](Clingo::SolveResult const &r) {
        out.sat = r.is_satisfiable();
        out.unsat = r.is_unsatisfiable();
        out.unknown = r.is_unknown();
        out.interrupted = r.is_interrupted();
        out.exhausted = r.is_exhausted();
    };
    class Handler : public Clingo::SolveEventHandler {
      public:
        DLRun &run;
        SolveOut &out;
        int delay{0};
        bool on_model(Clingo::Model &model) override {
            OutScope os;
            out.models.push_back(run.extract(model));
            if (delay > 0) {
                std::this_thread::sleep_for(std::chrono::microseconds(delay));
            }
            return true;
        }
        void on_statistics(Clingo::UserStatistics step, Clingo::UserStatistics accu) override {
            OutScope os;
            run.reportStats(step, accu);
        }
        Handler(DLRun &r, SolveOut &o) : run{r}, out{o} {}
    } handler{*run, out};
    OutScope os;
    switch (kind) {
        case 0: {
            // the model handler stops the search
            int models = 0;
            out = run->solve(assumptions, [&](Clingo::Model &, Model &) { return ++models < n; });
            break;
        }
        case 1: {
            // limit of the solver
            auto conf = run->ctl().configuration();
            auto limit = std::to_string(n);
            conf["solve"]["solve_limit"] = limit.c_str();
            out = run->solve(assumptions);
            conf["solve"]["solve_limit"] = "umax";
            break;
        }
        case 2: {
            // closing the handle of a search that is not finished yet
            auto handle = run->ctl().solve(ass, &handler, false, true);
            for (int i = 0; i < n && handle.model(); ++i) {
                handle.resume();
            }
            if (handle.model()) {
                // query the current model
                for (int i = 0; i < 3; ++i) {
                    auto const &m = handle.model();
                    if (!m) {
                        break;
                    }
                    Model mm = run->extract(const_cast<Clingo::Model &>(m), false);
                    keyOf(mm.atoms, mm.ival, s->inst.atoms, s->inst.vars);
                }
            }
            if (rng.chance(50)) {
                handle.cancel();
                result(handle.get());
            } else {
                c.count("handles closed without result");
                out.models.clear();
                out.unknown = true;
            }
            break;
        }
        case 3: {
            // cancel asynchronously
            handler.delay = rng.pick({0, 0, 20});
            auto handle = run->ctl().solve(ass, &handler, true, false);
            if (n > 0) {
                std::this_thread::sleep_for(std::chrono::microseconds(rng.range(0, 300)));
            }
            handle.cancel();
            result(handle.get());
            break;
        }
        case 4: {
            // interrupt asynchronously
            handler.delay = rng.pick({0, 0, 20});
            auto handle = run->ctl().solve(ass, &handler, true, false);
            if (n > 0) {
                std::this_thread::sleep_for(std::chrono::microseconds(rng.range(0, 300)));
            }
            run->ctl().interrupt();
            result(handle.get());
            break;
        }
        case 5: {
            // interrupt in a callback of the theory
            interruptIn = rng.pick({1, 2, 3, 5, 8, 13, 21, 50, 120});
            try {
                out = run->solve(assumptions);
            } catch (...) {
                interruptIn = -1;
                throw;
            }
            interruptIn = -1;
            break;
        }
        case 6: {
            // wait with timeout
            handler.delay = rng.pick({0, 50});
            auto handle = run->ctl().solve(ass, &handler, true, false);
            for (int i = 0; i < n; ++i) {
                if (handle.wait(rng.pick({0.0, 0.00005, 0.0005}))) {
                    break;
                }
            }
            if (rng.chance(50)) {
                handle.cancel();
            }
            result(handle.get());
            break;
        }
        default: {
            // asynchronous and yielding
            auto handle = run->ctl().solve(ass, &handler, true, true);
            for (int i = 0; i < n; ++i) {
                if (!handle.model()) {
                    break;
                }
                handle.resume();
            }
            handle.cancel();
            result(handle.get());
            break;
        }
    }
    if (cfg.deterministic) {
        ++solves;
        record(out);
        return;
    }
    if (kind == 2 && out.unknown) {
        return;
    }
    checkPartial(out, ref, what, kind == 3 || kind == 4 || kind == 6 || kind == 7);
    if ((kind == 4 || kind == 5) && !out.interrupted) {
        // an interrupt that comes too late affects the next call
        checkPartial(run->solve(assumptions), ref, what + " followed by a call", false);
    }
    c.count("partial solve calls of kind " + std::to_string(kind));
}

void World::queries() {
    Rng rng{c.rng.next()};
    if (cfg.plain) {
        return;
    }
    Scope sc;
    auto *t = run->theory;
    std::ostringstream o;
    for (unsigned thread = 0; thread < 4; ++thread) {
        size_t idx = 0;
        clingodl_assignment_begin(t, thread, &idx);
        int n = 0;
        while (clingodl_assignment_next(t, thread, &idx)) {
            clingodl_value_t v;
            clingodl_assignment_get_value(t, thread, idx, &v);
            if (!clingodl_assignment_has_value(t, thread, idx)) {
                violate("iteration reports a variable without value");
            }
            ++n;
        }
        c.count("values queried between solve calls", n);
        if (n > static_cast<int>(s->inst.vars.size())) {
            violate("more values than variables");
        }
    }
    for (auto const &v : s->inst.vars) {
        size_t idx = 0;
        auto sym = Clingo::parse_term(v.c_str());
        if (clingodl_lookup_symbol(t, sym.to_c(), &idx)) {
            if (!(Clingo::Symbol{clingodl_get_symbol(t, idx)} == sym)) {
                violate("lookup and retrieval of " + v + " differ");
            }
            clingodl_assignment_has_value(t, static_cast<unsigned>(rng.range(0, 70)), idx);
        }
    }
    if (run->withStats && solves > 0) {
        OutScope os;
        readStats(run->ctl(), "user_step");
        readStats(run->ctl(), "user_accu");
    }
}

void World::misuse() {
    // calls that are rejected
    auto &rng = c.rng;
    auto expectError = [&](char const *what, std::function<void()> const &f) {
        try {
            f();
        } catch (Violation const &) {
            throw;
        } catch (std::exception const &) {
            c.count("errors reported");
            return;
        }
        violate(std::string(what) + " was accepted");
    };
    switch (rng.range(0, 3)) {
        case 0: {
            // rewriting without adding
            auto text = s->inst.dl();
            int n = 0;
            Clingo::AST::parse_string(text.c_str(), [&](Clingo::AST::Node const &node) {
                auto cb = [](clingo_ast_t *, void *d) -> bool {
                    ++*static_cast<int *>(d);
                    return true;
                };
                Scope sc;
                Clingo::Detail::handle_error(clingodl_rewrite_ast(run->theory, node.to_c(), cb, &n));
            });
            c.count("statements rewritten only", n);
            break;
        }
        case 1: {
            // failing callback during rewriting
            auto text = "{p(1;2)}. &diff { a - b } <= (1;2) :- p(1;2).";
            expectError("failing callback", [&]() {
                Clingo::AST::parse_string(text, [&](Clingo::AST::Node const &node) {
                    auto cb = [](clingo_ast_t *, void *) -> bool {
                        clingo_set_error(clingo_error_runtime, "failed");
                        return false;
                    };
                    Scope sc;
                    Clingo::Detail::handle_error(clingodl_rewrite_ast(run->theory, node.to_c(), cb, nullptr));
                });
            });
            break;
        }
        case 2: {
            // invalid statements (nothing is added)
            auto text = rng.pick<std::string>({"&diff { a - b; c - d } <= 1.", "&diff { a - b : x } <= 1.",
                                               "&diff { a,b } <= 1 :- x.", ":- &diff { } <= 1."});
            expectError("invalid statement", [&]() {
                Clingo::AST::parse_string(text.c_str(), [&](Clingo::AST::Node const &node) {
                    auto cb = [](clingo_ast_t *, void *) -> bool { return true; };
                    Scope sc;
                    Clingo::Detail::handle_error(clingodl_rewrite_ast(run->theory, node.to_c(), cb, nullptr));
                });
            });
            break;
        }
        default: {
            // another theory that is never used
            clingodl_theory_t *other = nullptr;
            Scope sc;
            Clingo::Detail::handle_error(clingodl_create(&other));
            bool good = clingodl_configure(other, "propagate", "full");
            bool bad = clingodl_configure(other, "propagate", "fulll");
            if (rng.chance(50)) {
                OutScope os;
                Clingo::Control ctl{{"0", "--warn=none"}};
                Scope sc2;
                Clingo::Detail::handle_error(clingodl_register(other, ctl.to_c()));
            }
            Clingo::Detail::handle_error(clingodl_destroy(other));
            if (!good || bad) {
                violate("wrong result of configure");
            }
            c.count("unused theories");
            break;
        }
    }
}

void World::fatal() {
    // constraints that are only rejected when solving; afterwards everything can only be destroyed
    if (cfg.plain) {
        return;
    }
    auto &rng = c.rng;
    auto text = "#program bad.\n" + rng.pick<std::string>({"&diff { a*b } <= 1.", "&diff { 3*a } <= 1.", "&diff { a + b } <= 1.",
                                                         "&diff { a - b - z } <= 1.", "&diff { a } <= \"x\"*2.",
                                                         "&diff { a - b } <= 2147483647+1.", "&diff { a } <= 1/0."});
    c.log << text << "\n";
    std::string error;
    try {
        run->parse(text);
        run->ground({{"bad", {}}});
        run->solveMode = rng.range(0, 2);
        auto out = s->solve();
        if (out.unsat) {
            // initialization might not be reached
            c.count("not reached due to unsatisfiability");
            return;
        }
    } catch (Violation const &) {
        throw;
    } catch (std::exception const &e) {
        error = e.what();
    }
    if (error.empty() && !cfg.rdl) {
        violate("invalid constraint was accepted");
    }
    c.count("errors during initialization");
}

bool World::op() {
    auto &rng = c.rng;
    if (done >= cfg.ops) {
        if (run && !first && !ended && rng.chance(20) && !cfg.deterministic) {
            ended = true;
            fatal();
            return true;
        }
        return false;
    }
    ++done;
    if (!run) {
        create();
        if (rng.chance(5)) {
            return true; // created but not used any further
        }
    }
    if (first) {
        first = false;
        if (!cfg.rdl && cfg.jobs && rng.chance(35)) {
            auto inst = generateJobs(rng, rng.range(2, 3), 2, rng.chance(50));
            s->inst.append(inst);
            auto text = "#program s0.\n" + inst.dl();
            c.log << "% step 0\n" << text;
            s->steps = 1;
            s->addPart("s0", text);
        } else {
            s->step();
        }
        if (rng.chance(10)) {
            queries(); // before solving
        }
        return true;
    }
    int k = rng.range(0, 99);
    if (k < 15 && cfg.multi) {
        s->step();
    } else if (k < 30) {
        queries();
    } else if (k < 40) {
        misuse();
    } else {
        s->shuffleExternals();
        s->pickAssumptions();
        if (cfg.partial && rng.chance(60)) {
            partial();
            if (rng.chance(60)) {
                full();
            }
        } else {
            full();
        }
    }
    return true;
}

bool runWorld(Case &parent, World &w) {
    try {
        while (w.op()) {
        }
    } catch (std::exception const &) {
        w.finish(parent, 0);
        int tries = w.cfg.plain ? 0 : w.cfg.threads ? 10 : 3;
        for (int i = 0; i < tries; ++i) {
            auto cfg = w.cfg;
            cfg.plain = true;
            World p{parent.index, w.seed, cfg, parent.thorough};
            try {
                while (p.op()) {
                }
            } catch (std::exception const &e) {
                parent.log << "% with the simple propagator: " << e.what() << "\n";
                parent.count("skipped (libclingo fails without the theory, too)");
                return false;
            }
        }
        throw;
    }
    w.finish(parent, 0);
    return true;
}

} // namespace M

