// C16: statistics.
#include "dlmon.hh"

#include <algorithm>
#include <cmath>
#include <numeric>

namespace M {

namespace {

char const *const sizes[] = {"CCs", "Edges", "Variables"};
char const *const counters[] = {"True edges",       "False edges",      "False edges (inverse)", "False edges (partial)",
                                "False edges (partial+)", "Edges added", "Edges skipped",         "Edges propagated",
                                "Cost consistency", "Cost forward",     "Cost backward"};
char const *const times[] = {"Propagation(s)", "Dijkstra(s)", "Undo(s)"};

double get(std::map<std::string, double> const &m, char const *k) {
    auto it = m.find(k);
    if (it == m.end()) {
        violate(std::string("statistics entry '") + k + "' is missing");
    }
    return it->second;
}

//! What happened according to the monitor.
struct Happened {
    std::mutex mutex;
    // accumulated over the whole session
    i64 edgesLo{0}, edgesHi{0}; //!< bounds for the number of edges
    u64 edges{0};               //!< reported number of edges
    std::array<std::unordered_map<int, u64>, 64> edgesOf; //!< thread -> literal -> number of watches
    std::array<u64, 64> watches{};
    std::set<std::string> mentioned{"0"};
    std::vector<std::pair<std::string, std::string>> links; //!< edges between variables that exist
    size_t gatoms{0};
    i64 maxCCs{0};
    bool exact{true};
    // since the last report
    u64 mutexes{0}, clausesInit{0}, inits{0}, refusedInits{0};
    i64 normLo{0}, normHi{0}; //!< bounds for the number of clauses to normalize constraints
    int threads{0};
    bool initRefused{false}, watching{false};
    std::array<u64, 64> clauses{}, changesSure{}, changesMaybe{}, callbacks{};
    i64 ccLo{0}, ccHi{0};
    void reset() {
        mutexes = clausesInit = inits = refusedInits = 0;
        normLo = normHi = 0;
        clauses = changesSure = changesMaybe = callbacks = {};
    }
};

//! Number of edges and clauses for an atom whose truth value is as given.
std::pair<i64, i64> encoding(GAtom const &g, int truth) {
    bool empty = g.terms.empty();
    auto rel = g.rel;
    if (g.strict && rel == Rel::NE) {
        rel = Rel::EQ;
        truth = -truth;
    }
    i64 edges = 0;
    i64 clauses = 0;
    if (rel == Rel::EQ) {
        if (g.strict) {
            edges = truth > 0 ? 2 : 4;
            clauses = 3;
        } else {
            edges = truth < 0 ? 0 : 2;
        }
    } else if (rel == Rel::NE) {
        edges = truth < 0 ? 0 : 2;
        clauses = 4;
    } else {
        edges = g.strict && truth == 0 ? 2 : g.strict || truth >= 0 ? 1 : 0;
    }
    return {empty ? 0 : edges, clauses};
}

i64 components(std::set<std::string> const &vars, std::vector<std::pair<std::string, std::string>> const &links) {
    std::map<std::string, std::string> parent;
    std::function<std::string(std::string const &)> find = [&](std::string const &x) -> std::string {
        auto &p = parent[x];
        if (p.empty() || p == x) {
            p = x;
            return x;
        }
        auto r = find(p);
        parent[x] = r;
        return r;
    };
    for (auto const &[a, b] : links) {
        parent[find(a)] = find(b);
    }
    std::set<std::string> roots;
    for (auto const &v : vars) {
        if (v != "0") {
            roots.insert(find(v));
        }
    }
    return static_cast<i64>(roots.size());
}

} // namespace

CHECK(C16) {
    auto &rng = c.rng;
    int threads = rng.chance(45) ? rng.range(2, 4) : 1;
    auto args = randomClaspArgs(rng, false, threads > 1);
    args.insert(args.begin(), {"0", "--warn=none"});
    auto opts = randomDlOpts(rng, threads);
    std::map<std::string, std::string> last; // last value of an option without thread
    std::array<bool, 64> weak1{}, weak2{}, weak3{}, full{}, zeroMode{};
    bool cc = true;
    std::string mutex = "0";
    {
        // options per thread (the last one counts; values for a thread win)
        std::map<std::pair<std::string, int>, std::string> per;
        for (auto const &[k, v] : opts) {
            auto pos = v.find(',');
            if (k == "add-mutexes") {
                mutex = v;
            } else if (k == "compute-components") {
                cc = v == "yes";
            } else if (pos != std::string::npos) {
                per[{k, std::stoi(v.substr(pos + 1))}] = v.substr(0, pos);
            } else {
                last[k] = v;
            }
        }
        for (int t = 0; t < 64; ++t) {
            auto val = [&](char const *k, char const *def) {
                auto it = per.find({k, t});
                if (it != per.end()) {
                    return it->second;
                }
                auto jt = last.find(k);
                return jt != last.end() ? jt->second : std::string(def);
            };
            auto mode = val("propagate", "no");
            full[t] = mode == "full" || mode == "zero" || val("propagate-root", "0") != "0" ||
                      val("propagate-budget", "0") != "0";
            zeroMode[t] = mode == "zero";
            weak1[t] = mode != "no";
            weak2[t] = weak1[t] && mode != "inverse";
            weak3[t] = weak2[t] && mode != "partial";
        }
    }
    c.log << "% options: " << optsStr(opts) << "\n% clingo: " << join(args) << "\n";
    auto hp = std::make_shared<Happened>();
    auto &h = *hp;
    Mon mon;
    mon.trackClauses = true; // parse theory atoms
    mon.onCallback = [&h](char const *cb, clingo_propagate_control_t *ctl) {
        static_cast<void>(ctl);
        if (std::strcmp(cb, "init") == 0) {
            h.inits++;
            h.watching = false;
            h.initRefused = false;
            for (auto &lits : h.edgesOf) {
                lits.clear();
            }
            h.watches = {};
        }
    };
    mon.onWatch = [&h](bool init, unsigned thread, int lit) {
        static_cast<void>(init);
        h.watching = true;
        // each edge is watched in both directions if edges are disabled
        h.edgesOf[thread][lit]++;
        h.watches[thread]++;
    };
    mon.onClause = [&h](bool init, clingo_assignment_t const *, int const *, size_t) {
        if (init) {
            h.clausesInit++;
            if (h.watching) {
                h.mutexes++;
            }
        }
    };
    mon.afterInit = [&h, &mon](clingo_propagate_init_t *init) {
        auto const *ass = clingo_propagate_init_assignment(init);
        h.threads = clingo_propagate_init_number_of_threads(init);
        // atoms new in this step
        std::vector<std::pair<std::string, std::string>> maybe;
        for (; h.gatoms < mon.gatoms.size(); ++h.gatoms) {
            auto const &g = mon.gatoms[h.gatoms];
            if (!g.valid) {
                h.exact = false;
                continue;
            }
            for (auto const &m : g.mentioned) {
                h.mentioned.insert(m);
            }
            {
                bool isTrue = false;
                bool isFalse = false;
                if (!clingo_assignment_is_false(ass, g.lit, &isFalse) || !clingo_assignment_is_true(ass, g.lit, &isTrue)) {
                    throw std::logic_error("assignment");
                }
                auto a = encoding(g, g.truth);
                auto b = encoding(g, isTrue ? 1 : isFalse ? -1 : 0);
                h.edgesLo += std::min(a.first, b.first);
                h.edgesHi += std::max(a.first, b.first);
                // constraints without variables are decided with clauses or without
                h.normLo += g.terms.empty() ? 0 : a.second;
                h.normHi += g.terms.empty() ? 100 : a.second;
            }
            std::string u;
            std::string v;
            i64 k{};
            if (asDiff(g, u, v, k)) {
                bool isFalse = false;
                if (!clingo_assignment_is_false(ass, g.lit, &isFalse)) {
                    throw std::logic_error("assignment");
                }
                if (!u.empty() && !v.empty() && u != v) {
                    if (!isFalse || g.strict) {
                        h.links.emplace_back(u, v);
                    } else {
                        h.exact = false; // might have become false during initialization
                    }
                }
            }
        }
        bool broken = false;
        if (clingo_assignment_has_conflict(ass)) {
            broken = true;
        }
        h.initRefused = broken;
        if (broken) {
            h.refusedInits++;
        }
        h.ccHi = components(h.mentioned, h.links);
    };
    mon.onChanges = [&h](unsigned t, unsigned level, int const *lits, size_t n, bool refused) {
        static_cast<void>(level);
        std::lock_guard<std::mutex> g(h.mutex);
        u64 e = 0;
        for (size_t i = 0; i < n; ++i) {
            auto it = h.edgesOf[t].find(lits[i]);
            if (it != h.edgesOf[t].end()) {
                e += it->second;
            }
        }
        h.callbacks[t]++;
        h.changesMaybe[t] += e;
        if (!refused) {
            h.changesSure[t] += e;
        }
    };
    mon.onSearchClause = [&h](unsigned t) {
        std::lock_guard<std::mutex> g(h.mutex);
        h.clauses[t]++;
    };
    DLRun run{opts, args, &mon};
    run.withStats = true;
    GenOpt go;
    go.maxExternals = 1;
    go.maxVars = 5;
    go.maxBody = 2;
    go.maxHead = 4;
    go.maxChoice = 3;
    go.maxRules = 2;
    go.groups = rng.pick({0, 2, 3});
    Session s{c, run, go, threads > 1};
    bool jobs = rng.chance(30);
    int steps = rng.range(1, c.thorough ? 5 : 4);
    DLStats prev;
    std::vector<std::map<std::string, double>> sum;
    std::map<std::string, double> total;
    size_t maxThreads = 0;
    int reports = 0;
    double clausesSeen = 0;
    for (int i = 0; i < steps; ++i) {
        if (jobs && i == 0) {
            auto inst = generateJobs(rng, 3, 2, rng.chance(50));
            s.inst.append(inst);
            auto text = "#program s0.\n" + inst.dl();
            c.log << "% step 0\n" << text;
            s.steps = 1;
            s.addPart("s0", text);
        } else {
            s.step();
        }
        int solves = rng.pick({1, 1, 2, 3});
        for (int j = 0; j < solves; ++j) {
            run.solveMode = rng.range(0, 2);
            s.shuffleExternals();
            s.randomThreads();
            if (rng.chance(40)) {
                s.pickAssumptions();
            }
            int limit = rng.chance(30) ? rng.range(1, 5) : 200;
            int models = 0;
            h.reset();
            run.solve(s.assumptions, [&](Clingo::Model &, Model &) { return ++models < limit; });
            auto step = readStats(run.ctl(), "user_step");
            auto accu = readStats(run.ctl(), "user_accu");
            std::string what = "step " + std::to_string(i) + " solve " + std::to_string(j) + ": ";
            mon.throwErrors();
            if (!step.present || !accu.present) {
                violate(what + "no statistics were reported");
            }
            ++reports;
            c.count("reports");
            auto num = [](double x) { return std::to_string(static_cast<long long>(x)); };
            // accumulation
            for (auto const *k : sizes) {
                if (get(accu.values, k) != get(step.values, k)) {
                    violate(what + "accumulated value of '" + k + "' is not the latest one");
                }
            }
            total["Mutexes"] += get(step.values, "Mutexes");
            total["Time init(s)"] += get(step.values, "Time init(s)");
            if (get(accu.values, "Mutexes") != total["Mutexes"]) {
                violate(what + "accumulated mutexes are " + num(get(accu.values, "Mutexes")) + " and not " +
                        num(total["Mutexes"]));
            }
            if (std::abs(get(accu.values, "Time init(s)") - total["Time init(s)"]) > 1e-6) {
                violate(what + "accumulated initialization time is not the sum of the steps");
            }
            auto maxBefore = maxThreads;
            maxThreads = std::max(maxThreads, step.threads.size());
            if (accu.threads.size() != maxThreads) {
                violate(what + "accumulated statistics have " + std::to_string(accu.threads.size()) +
                        " threads but the maximum is " + std::to_string(maxThreads));
            }
            sum.resize(maxThreads);
            for (size_t t = 0; t < maxThreads; ++t) {
                for (auto const *k : counters) {
                    if (t < step.threads.size()) {
                        auto v = get(step.threads[t], k);
                        if (v < 0 || v != std::floor(v)) {
                            violate(what + "value of counter '" + k + "' is not a natural number");
                        }
                        sum[t][k] += v;
                    }
                    if (get(accu.threads[t], k) != sum[t][k]) {
                        violate(what + "accumulated counter '" + k + "' of thread " + std::to_string(t) + " is " +
                                num(get(accu.threads[t], k)) + " and not " + num(sum[t][k]));
                    }
                    if (t < prev.threads.size() && get(prev.threads[t], k) > get(accu.threads[t], k)) {
                        violate(what + "accumulated counter '" + k + "' decreased");
                    }
                }
                for (auto const *k : times) {
                    if (t < step.threads.size()) {
                        auto v = get(step.threads[t], k);
                        if (!(v >= 0)) {
                            violate(what + "time '" + k + "' is negative");
                        }
                        sum[t][k] += v;
                    }
                    if (std::abs(get(accu.threads[t], k) - sum[t][k]) > 1e-6) {
                        violate(what + "accumulated time '" + k + "' is not the sum of the steps");
                    }
                }
            }
            prev = accu;
            // sizes and mutexes
            if (h.inits > 1) {
                violate(what + "theory initialized more than once");
            }
            if (h.inits == 1) {
                c.count("initializations");
                // Note: entries of statistics cannot be removed but have to be zero
                auto expected = std::max(maxBefore, static_cast<size_t>(h.threads));
                if (!h.initRefused && (step.threads.size() < static_cast<size_t>(h.threads) ||
                                       step.threads.size() > expected)) {
                    violate(what + "statistics for " + std::to_string(step.threads.size()) + " threads but there are " +
                            std::to_string(h.threads));
                }
                for (size_t t = h.threads; !h.initRefused && t < step.threads.size(); ++t) {
                    for (auto const *k : counters) {
                        if (get(step.threads[t], k) != 0) {
                            violate(what + "counter '" + k + "' of thread " + std::to_string(t) + " is not zero but there are " +
                                    std::to_string(h.threads) + " threads");
                        }
                    }
                    c.count("entries of former threads");
                }
                // Note: either by the order of operations or by the kinds of constraints
                auto mutexes = static_cast<i64>(get(step.values, "Mutexes"));
                auto norm = static_cast<i64>(h.clausesInit) - mutexes;
                if (mutexes != static_cast<i64>(h.mutexes) && (norm < h.normLo || norm > h.normHi)) {
                    violate(what + "reported " + num(get(step.values, "Mutexes")) + " mutexes but " +
                            std::to_string(h.mutexes) + " clauses were added");
                }
                if (h.mutexes > 0) {
                    c.count("mutexes", h.mutexes);
                }
                if (!h.initRefused) {
                    h.edges = static_cast<u64>(get(step.values, "Edges"));
                    if (static_cast<i64>(h.edges) < h.edgesLo || static_cast<i64>(h.edges) > h.edgesHi) {
                        violate(what + "reported " + std::to_string(h.edges) + " edges but there are " +
                                std::to_string(h.edgesLo) + (h.edgesLo < h.edgesHi ? "-" + std::to_string(h.edgesHi) : ""));
                    }
                    c.count(h.edgesLo == h.edgesHi ? "numbers of edges known" : "numbers of edges bounded");
                    auto ccs = static_cast<i64>(get(step.values, "CCs"));
                    if (!cc && ccs != 0) {
                        violate(what + "components were computed though disabled");
                    }
                    h.maxCCs = std::max(h.maxCCs, ccs);
                    if (cc && (h.exact ? ccs != h.ccHi : ccs > h.ccHi)) {
                        violate(what + "reported " + std::to_string(ccs) + " components but there are " +
                                std::to_string(h.ccHi));
                    }
                    auto vars = static_cast<double>(h.mentioned.size() + std::max<i64>(h.maxCCs - 1, 0));
                    if (get(step.values, "Variables") != vars) {
                        violate(what + "reported " + num(get(step.values, "Variables")) + " variables but there are " +
                                num(vars));
                    }
                    c.count("sizes checked");
                    if (cc && h.exact && ccs > 1) {
                        c.count("several components");
                    }
                }
            } else {
                c.count("solve calls without initialization");
            }
            // counters per thread
            for (size_t t = 0; t < step.threads.size(); ++t) {
                auto const &st = step.threads[t];
                auto where = what + "thread " + std::to_string(t) + ": ";
                auto zero = [&](char const *k) {
                    if (get(st, k) != 0) {
                        violate(where + "counter '" + k + "' is " + num(get(st, k)) + " though the feature is off");
                    }
                };
                if (!full[t]) {
                    for (auto const *k : {"True edges", "False edges", "Edges propagated", "Cost forward", "Cost backward"}) {
                        zero(k);
                    }
                }
                if (!zeroMode[t] && get(st, "Edges propagated") > 0) {
                    // each propagated edge is itself traversed in both directions
                    for (auto const *k : {"Cost forward", "Cost backward"}) {
                        if (get(st, k) < get(st, "Edges propagated")) {
                            violate(where + num(get(st, "Edges propagated")) + " edges were propagated but counter '" + k +
                                    "' is " + num(get(st, k)));
                        }
                    }
                    c.count("costs of full propagation");
                }
                if (!weak1[t]) {
                    zero("False edges (inverse)");
                }
                if (!weak2[t]) {
                    zero("False edges (partial)");
                }
                if (!weak3[t]) {
                    zero("False edges (partial+)");
                }
                auto added = get(st, "Edges added");
                if (get(st, "Edges skipped") > added) {
                    violate(where + "more edges skipped than added");
                }
                if (get(st, "Edges propagated") > 2 * added) {
                    violate(where + "more edges propagated than added");
                }
                auto simple = get(st, "False edges (inverse)") + get(st, "False edges (partial)") +
                              get(st, "False edges (partial+)");
                auto cl = static_cast<double>(h.clauses[t]);
                if (simple > cl) {
                    violate(where + num(simple) + " false edges were counted but only " + num(cl) + " clauses added");
                }
                // every clause stems from a false edge or a conflict (which ends a callback)
                if (cl > simple + get(st, "False edges") + added) {
                    violate(where + num(cl) + " clauses were added but only " + num(simple + get(st, "False edges")) +
                            " false edges counted");
                }
                // Note: facts of earlier steps are propagated in addition
                auto slack = static_cast<double>(h.edges);
                // Note: there has to be a watch for each edge to tell how many edges a change affects
                bool watched = h.watches[t] == (full[t] ? 2 : 1) * h.edges;
                if (watched && added > static_cast<double>(h.changesMaybe[t]) + slack) {
                    violate(where + num(added) + " edges were added but at most " +
                            num(static_cast<double>(h.changesMaybe[t]) + slack) + " became true");
                }
                if (watched && !full[t] && !weak1[t]) {
                    if (added < static_cast<double>(h.changesSure[t])) {
                        violate(where + num(added) + " edges were added but at least " + std::to_string(h.changesSure[t]) +
                                " became true");
                    }
                    c.count("counters of edges bounded from both sides");
                    clausesSeen += cl;
                }
                if (h.inits == 0 && added != 0) {
                    violate(where + "counters are not zero though there was no search");
                }
                if (added > 0) {
                    if (!(get(st, "Propagation(s)") > 0)) {
                        violate(where + num(added) + " edges were added in no time");
                    }
                    c.count("active threads");
                }
            }
        }
    }
    if (reports > 1) {
        c.nontrivial(c.log.str());
    }
}

} // namespace M
