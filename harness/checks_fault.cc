// C19: failures of the solver and of memory allocation.
#include "dlmon.hh"

#include <algorithm>

namespace M {

namespace {

using Record = std::vector<std::pair<char const *, char const *>>;

struct Scenario {
    Opts opts;
    std::vector<std::string> args;
    std::vector<std::pair<std::string, std::string>> parts; //!< program parts with text
    std::vector<std::vector<Clingo::SymbolicLiteral>> assumptions;
    std::vector<int> modes;
    std::vector<Keys> expected;
    std::vector<Inst> insts; //!< instance up to the given step
    bool stats{false};
    bool theoryFirst{false};
    bool yieldQueries{false};
};

enum Phase { Create, Parse, Ground, Solve, Query, End };
char const *const phaseNames[] = {"create, configure, and register", "rewrite", "prepare and ground", "solve", "query", "end"};

struct Result {
    u64 calls{0};
    bool threw{false};
    std::string what;
    int phase{End};
    std::vector<u64> phaseCalls; //!< number of fault points passed at the end of each operation
    std::string callback;
};

//! Perform the scenario. Throws Violation if something is wrong.
Result perform(Scenario const &sc, Case &c, bool again) {
    Result res;
    Mon mon;
    std::unique_ptr<DLRun> run;
    int phase = Create;
    size_t step = 0;
    // every operation has to report failures
    auto guarded = [&](int p, std::function<void()> const &f) {
        phase = p;
        auto before = fault.fired.load();
        f();
        if (fault.fired.load() != before) {
            fault.on = false;
            violate(std::string("failure of ") + (fault.site != nullptr ? fault.site : "?") + " was not reported (" + phaseNames[p] + ")");
        }
        res.phaseCalls.push_back(fault.calls);
    };
    try {
        guarded(Create, [&]() {
            run = std::make_unique<DLRun>(sc.opts, sc.args, &mon);
            run->withStats = sc.stats;
            run->scaleReals = true;
            run->destroyTheoryFirst = sc.theoryFirst;
        });
        for (size_t i = 0; i < sc.parts.size(); ++i) {
            step = i;
            auto const &name = sc.parts[i].first;
            auto const &text = sc.parts[i].second;
            guarded(Parse, [&]() { run->parse(text); });
            guarded(Ground, [&]() { run->ground({{name, {}}}); });
            run->solveMode = sc.modes[i];
            SolveOut out;
            u64 seen = 0;
            Keys partial;
            guarded(Solve, [&]() {
                out = run->solve(sc.assumptions[i], [&](Clingo::Model &, Model &m) {
                    // even if there are failures later, all models have to be right
                    ++seen;
                    auto key = keyOf(m.atoms, m.ival, sc.insts[i].atoms, sc.insts[i].vars);
                    auto it = sc.expected[i].find(key);
                    if (it == sc.expected[i].end() || ++partial[key] > it->second) {
                        // Note: exceptions do not pass through the solver
                        fault.on = false;
                        res.what = "wrong answer " + key;
                        res.phase = -1;
                    }
                    return true;
                });
            });
            if (res.phase == -1) {
                violate(res.what);
            }
            compareKeys(sc.expected[i], keysOf(out, sc.insts[i].atoms, sc.insts[i].vars), "solve call");
            c.count("models", seen);
            guarded(Query, [&]() {
                for (auto const &v : sc.insts[i].vars) {
                    auto sym = Clingo::parse_term(v.c_str());
                    size_t idx = 0;
                    Scope s;
                    if (clingodl_lookup_symbol(run->theory, sym.to_c(), &idx)) {
                        clingodl_assignment_has_value(run->theory, 0, idx);
                    }
                }
            });
        }
    } catch (Violation const &) {
        fault.on = false;
        throw;
    } catch (std::bad_alloc const &e) {
        res.threw = true;
        res.what = "std::bad_alloc";
        res.phase = phase;
    } catch (std::exception const &e) {
        if (res.phase == -1) {
            throw Violation(res.what);
        }
        res.threw = true;
        res.what = e.what();
        res.phase = phase;
    }
    res.calls = fault.calls;
    // nothing fails while cleaning up
    fault.on = false;
    if (res.threw && res.phase == Solve && again) {
        // trying again either fails, too, or gives the right answers
        Keys keys;
        try {
            auto out = run->solve(sc.assumptions[step]);
            keys = keysOf(out, sc.insts[step].atoms, sc.insts[step].vars);
            c.count("successful solve calls after a failure");
        } catch (Violation const &) {
            throw;
        } catch (std::exception const &) {
            c.count("failing solve calls after a failure");
            keys = sc.expected[step];
        }
        compareKeys(sc.expected[step], keys, "solve call after a failure");
    }
    run.reset();
    if (res.threw && fault.fired == 0) {
        violate("error without failure: " + res.what);
    }
    if (!res.threw && fault.fired > 0) {
        violate("failure of " + std::string(fault.site != nullptr ? fault.site : "?") + " was not reported");
    }
    return res;
}

//! Failures of the callback that receives rewritten statements.
void callbackFailures(Scenario const &sc, Case &c) {
    auto &rng = c.rng;
    struct Data {
        clingodl_theory_t *theory;
        std::vector<std::string> out; //!< rewritten statements
        int calls{0};                 //!< number of calls
        int failAt{-1};               //!< call that fails
        int failed{0};                //!< number of failures
        int after{0};                 //!< calls after a failure
        int code{clingo_error_runtime};
        std::string error;
    };
    auto add = [](clingo_ast_t *ast, void *d) -> bool {
        OutScope os;
        auto &data = *static_cast<Data *>(d);
        if (data.failed > 0) {
            ++data.after;
        }
        if (data.calls++ == data.failAt) {
            ++data.failed;
            clingo_set_error(data.code, "callback failed");
            return false;
        }
        size_t n = 0;
        Clingo::Detail::handle_error(clingo_ast_to_string_size(ast, &n));
        std::vector<char> buf(n);
        Clingo::Detail::handle_error(clingo_ast_to_string(ast, buf.data(), n));
        data.out.emplace_back(buf.data());
        return true;
    };
    struct Parse {
        Data *data;
        clingo_ast_callback_t dummy;
        bool (*add)(clingo_ast_t *, void *);
        std::string problem;
    };
    Data data{};
    Clingo::Detail::handle_error(clingodl_create(&data.theory));
    if (rng.chance(50)) {
        Clingo::Detail::handle_error(clingodl_configure(data.theory, "shift-constraints", "yes"));
    }
    auto rewrite = [&]() {
        Parse parse{&data, nullptr, add, {}};
        for (auto const &[name, text] : sc.parts) {
            Clingo::Detail::handle_error(clingo_ast_parse_string(
                text.c_str(),
                [](clingo_ast_t *ast, void *d) -> bool {
                    auto &parse = *static_cast<Parse *>(d);
                    auto &data = *parse.data;
                    auto before = data.failed;
                    bool ret = false;
                    {
                        Scope s;
                        ret = clingodl_rewrite_ast(data.theory, ast, parse.add, &data);
                    }
                    if (ret == (data.failed != before)) {
                        parse.problem = ret ? "failure of the callback for rewritten statements was not reported"
                                            : "rewriting failed although the callback did not fail";
                    }
                    if (!ret) {
                        auto const *msg = clingo_error_message();
                        data.error = msg != nullptr ? msg : "";
                        if (clingo_error_code() != data.code) {
                            data.error += " (wrong code)";
                        }
                    }
                    // go on with the next statement
                    data.after = data.failed != before ? data.after : 0;
                    return true;
                },
                &parse, nullptr, nullptr, nullptr, 0));
            if (!parse.problem.empty()) {
                violate(parse.problem);
            }
        }
    };
    rewrite();
    auto expected = data.out;
    auto n = data.calls;
    for (int i = 0; i < 3 && n > 0; ++i) {
        data.out.clear();
        data.calls = data.failed = data.after = 0;
        data.error.clear();
        data.failAt = rng.range(0, n - 1);
        data.code = rng.pick({clingo_error_runtime, clingo_error_logic, clingo_error_unknown});
        rewrite();
        if (data.failed != 1) {
            violate("the callback for rewritten statements should have failed once");
        }
        if (data.error.rfind("callback failed", 0) != 0 || data.error.find("(wrong code)") != std::string::npos) {
            c.tags->insert("callback error reported as " + data.error);
        }
        if (data.error.empty()) {
            violate("no message for failure of the callback for rewritten statements");
        }
        c.count("failures of callbacks reported");
        // the theory can still be used
        data.out.clear();
        data.failAt = -1;
        data.calls = data.failed = 0;
        rewrite();
        if (data.out != expected) {
            violate("statements are rewritten differently after a failure of the callback");
        }
    }
    clingodl_destroy(data.theory);
}

void arm(i64 countdown, bool alloc, bool sticky, int kind) {
    fault.on = false;
    fault.calls = 0;
    fault.fired = 0;
    fault.site = nullptr;
    fault.countdown = countdown;
    fault.alloc = alloc;
    fault.sticky = sticky;
    fault.kind = kind;
    fault.on = true;
}

//! Called if there is an exception that is not caught.
void onTerminate() {
    if (fault.fired > 0 && inTheory == 0 && inCallback == nullptr) {
        // Note: libclingo 5.6.2 also propagates in destructors and terminates if this fails
        abandon();
    }
    std::abort();
}

} // namespace

CHECK(C19) {
    auto &rng = c.rng;
    std::set_terminate(onTerminate);
    Scenario sc;
    sc.args = randomClaspArgs(rng);
    sc.args.insert(sc.args.begin(), {"0", "--warn=none"});
    // Note: libclingo 5.6.2 terminates if propagators fail in threads other than the main one
    sc.opts = randomDlOpts(rng);
    bool rdl = rng.chance(15);
    if (rdl) {
        sc.opts.emplace_back("rdl", "yes");
    }
    sc.stats = rng.chance(70);
    sc.theoryFirst = rng.chance(50);
    c.log << "% options: " << optsStr(sc.opts) << "\n% clingo: " << join(sc.args) << "\n";
    {
        // record a session
        DLRun run{sc.opts, sc.args};
        run.scaleReals = true;
        GenOpt go;
        go.maxVars = 4;
        go.maxBody = 2;
        go.maxHead = 4;
        go.maxChoice = 3;
        go.maxRules = 2;
        go.body = !rdl;
        Session s{c, run, go, false};
        if (rdl) {
            s.post = [&rng](Inst &inst) { return makeReal(rng, inst, false); };
        }
        int steps = rng.range(1, 3);
        for (int i = 0; i < steps; ++i) {
            std::string text;
            if (i == 0 && !rdl && rng.chance(30)) {
                auto inst = generateJobs(rng, rng.range(2, 3), 2, rng.chance(50));
                s.inst.append(inst);
                text = "#program s0.\n" + inst.dl();
                c.log << "% step 0\n" << text;
                s.steps = 1;
                s.addPart("s0", text);
            } else {
                std::ostringstream old;
                old << c.log.str();
                c.log.str("");
                s.step();
                text = c.log.str();
                c.log.str("");
                c.log << old.str() << text;
            }
            s.pickAssumptions();
            run.solveMode = rng.range(0, 2);
            auto n = s.solveCompare("solve call");
            if (n < 0 || n > 200) {
                c.count("skipped (too many answers)");
                return;
            }
            sc.parts.emplace_back("s" + std::to_string(i), text);
            sc.assumptions.push_back(s.assumptions);
            sc.modes.push_back(run.solveMode);
            sc.expected.push_back(s.ops.back().keys);
            sc.insts.push_back(s.inst);
        }
    }
    callbackFailures(sc, c);
    auto runFault = [&](i64 at, bool alloc, bool sticky, int kind, Record const &callbacks) {
        arm(at, alloc, sticky, kind);
        try {
            auto res = perform(sc, c, rng.chance(50));
            if (fault.fired > 0) {
                c.count(std::string(alloc ? "allocation" : "solver") + " failures reported in: " + phaseNames[res.phase]);
                c.tags->insert(std::string(fault.site) + " in " + phaseNames[res.phase]);
                if (at < static_cast<i64>(callbacks.size()) && callbacks[at].first != nullptr) {
                    c.count(std::string("failures in ") + callbacks[at].first);
                }
                bool allocErr = alloc || kind == 1;
                if (allocErr ? res.what == "std::bad_alloc" || res.what.find("alloc") != std::string::npos
                             : res.what.find("injected fault") != std::string::npos) {
                    c.count("messages passed on");
                } else {
                    c.count("other messages");
                    c.tags->insert("message " + res.what.substr(0, 80) + " from " + fault.site);
                }
            } else {
                c.count("not reached");
            }
        } catch (std::exception const &e) {
            c.log << "% failure at " << at << (alloc ? " (allocation)" : " (solver)") << (sticky ? " sticky" : "") << " kind " << kind << "\n";
            throw;
        }
    };
    for (bool alloc : {false, true}) {
        arm(-1, alloc, false, 0);
        Record callbacks;
        fault.record = &callbacks;
        auto res = perform(sc, c, rng.chance(50));
        fault.record = nullptr;
        auto n = static_cast<i64>(res.calls);
        c.count(alloc ? "allocations" : "calls into the solver", n);
        // select points in all operations
        std::map<std::pair<size_t, std::string>, std::vector<i64>> candidates;
        size_t phase = 0;
        for (i64 i = 0; i < n; ++i) {
            while (phase < res.phaseCalls.size() && res.phaseCalls[phase] <= static_cast<u64>(i)) {
                ++phase;
            }
            std::string key;
            if (static_cast<size_t>(i) < callbacks.size()) {
                auto const &[cb, site] = callbacks[i];
                key = std::string(cb != nullptr ? cb : "") + " " + site;
            }
            candidates[{phase, key}].push_back(i);
        }
        std::set<i64> points;
        int per = c.thorough ? 6 : alloc ? 2 : 1;
        for (auto const &[key, idx] : candidates) {
            for (int j = 0; j < per; ++j) {
                if (c.thorough || alloc || rng.chance(40)) {
                    points.insert(rng.pick(idx));
                }
            }
        }
        for (auto at : points) {
            runFault(at, alloc, rng.chance(30), rng.range(0, 2), callbacks);
            if (fault.fired > 0) {
                c.count("failures injected");
            }
        }
        // work as usual afterwards
        arm(-1, alloc, false, 0);
        auto again = perform(sc, c, rng.chance(50));
        if (again.threw) {
            violate("error without failure: " + again.what);
        }
        c.count("repetitions");
    }
    fault.on = false;
    if (leakCheck()) {
        violate("memory leak");
    }
    c.count("leak checks");
    c.nontrivial(c.log.str());
}

} // namespace M
