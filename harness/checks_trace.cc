// C04-C06: online monitoring of clauses and propagation fixpoints.
#include "dlmon.hh"

namespace M {

namespace {

struct ModeCfg {
    int mode{0};
    u64 root{0};
    u64 budget{0};
};

//! Strength that is documented for the options (1: inverse, 2: zero, 3: full).
std::function<int(unsigned, unsigned)> strengthOf(Opts const &opts) {
    auto cfg = std::make_shared<std::vector<ModeCfg>>(64);
    auto set = [&](std::string const &v, auto f) {
        auto p = v.find(',');
        if (p == std::string::npos) {
            return std::make_pair(-1, v);
        }
        static_cast<void>(f);
        return std::make_pair(std::stoi(v.substr(p + 1)), v.substr(0, p));
    };
    static std::map<std::string, int> const modes{{"no", 0},       {"inverse", 1}, {"partial", 1},
                                                  {"partial+", 1}, {"zero", 2},    {"full", 3}};
    std::vector<bool> hasMode(64), hasRoot(64), hasBudget(64);
    for (auto const &[k, v] : opts) {
        if (k != "propagate" && k != "propagate-root" && k != "propagate-budget") {
            continue;
        }
        auto [t, val] = set(v, 0);
        for (int i = 0; i < 64; ++i) {
            if (k == "propagate") {
                if (t == i) {
                    (*cfg)[i].mode = modes.at(val);
                    hasMode[i] = true;
                } else if (t < 0 && !hasMode[i]) {
                    (*cfg)[i].mode = modes.at(val);
                }
            } else if (k == "propagate-budget") {
                if (t == i) {
                    (*cfg)[i].budget = std::stoull(val);
                    hasBudget[i] = true;
                } else if (t < 0 && !hasBudget[i]) {
                    (*cfg)[i].budget = std::stoull(val);
                }
            } else {
                if (t == i) {
                    (*cfg)[i].root = std::stoull(val);
                    hasRoot[i] = true;
                } else if (t < 0 && !hasRoot[i]) {
                    (*cfg)[i].root = std::stoull(val);
                }
            }
        }
    }
    return [cfg](unsigned thread, unsigned level) {
        auto const &c = (*cfg)[thread];
        // Note: a budget that cannot be exhausted does not limit full propagation
        return level < c.root || c.budget >= 1000000000000ULL ? 3 : c.mode;
    };
}

enum class What { Clauses, Conflicts, Strength };

Opts forStrength(Rng &rng, int threads) {
    auto opts = randomDlOpts(rng, threads);
    if (rng.chance(60)) {
        opts.emplace_back("propagate", rng.pick<std::string>({"full", "zero", "inverse", "partial", "partial+"}));
    }
    if (rng.chance(10)) {
        opts.emplace_back("propagate-budget",
                          rng.pick<std::string>({"1000000000000", "18446744073709551615", "9223372036854775808"}) +
                              (threads > 1 && rng.chance(50) ? "," + std::to_string(rng.range(0, threads - 1)) : ""));
    }
    return opts;
}

void run(Case &c, What what) {
    auto &rng = c.rng;
    Mon mon;
    mon.trackClauses = what == What::Clauses;
    mon.trackFix = what != What::Clauses;
    int threads = rng.chance(15) ? rng.range(2, 3) : 1;
    auto args = randomClaspArgs(rng);
    args.insert(args.begin(), {"--warn=none"});
    if (threads > 1) {
        args.push_back("-t" + std::to_string(threads) + (rng.chance(50) ? ",split" : ",compete"));
    }
    auto opts = what == What::Strength ? forStrength(rng, threads) : randomDlOpts(rng, threads);
    if (what == What::Clauses && rng.chance(40)) {
        opts.emplace_back("add-mutexes", rng.pick<std::string>({"2", "3", "5", "10,1000"}));
    }
    std::function<int(unsigned, unsigned)> strength;
    if (what == What::Strength) {
        strength = strengthOf(opts);
    }
    int kind = rng.range(0, 9);
    c.log << "% options: " << optsStr(opts) << "\n% clingo: " << join(args) << "\n";
    if (kind < 4) {
        // multi-shot
        args.insert(args.begin(), "0");
        DLRun r{opts, args, &mon, strength};
        GenOpt go;
        go.maxExternals = 1;
        Session s{c, r, go, threads > 1};
        s.nThreads = threads;
        int steps = rng.range(1, 3);
        for (int i = 0; i < steps; ++i) {
            s.step();
            s.shuffleExternals();
            s.randomThreads();
            s.pickAssumptions();
            u64 n = 0;
            s.solve([&](Clingo::Model &, Model &) { return ++n < 200; });
            mon.throwErrors();
        }
        c.count("multi-shot runs");
    } else {
        Inst inst;
        if (kind < 7) {
            GenOpt go;
            go.minVars = 4;
            go.maxVars = 9;
            go.maxBody = 6;
            go.maxHead = 16;
            go.maxChoice = 8;
            go.maxRules = 5;
            go.bodyFacts = 15;
            inst = generate(rng, go);
        } else {
            inst = generateJobs(rng, rng.range(2, 5), rng.range(2, 4), rng.chance(80));
        }
        c.log << inst.dl();
        args.emplace_back("100");
        args.emplace_back("--solve-limit=" + std::to_string(c.thorough ? 600 : 150));
        DLRun r{opts, args, &mon, strength};
        r.parse(inst.dl());
        r.ground();
        r.solve();
    }
    mon.throwErrors();
    c.count("init callbacks", mon.nInit);
    c.count("propagate callbacks", mon.nPropagate);
    c.count("undo callbacks", mon.nUndo);
    c.count("callbacks nested in theory propagation", mon.nNested);
    if (what == What::Clauses) {
        c.count("search clauses checked", mon.nClauses);
        c.count("initial clauses seen", mon.nInitClauses);
        c.count("clauses over internal literals (checked by answers only)", mon.nClausesAux);
        c.count("refused clauses/propagations", mon.nRefused);
        if (mon.nClauses > 0) {
            c.nontrivial(c.log.str());
        }
    } else {
        c.count("fixpoints checked", mon.nFix);
        c.count("undecided constraint literals checked", mon.nFixFree);
        if (mon.nFix > 1 && (what == What::Conflicts || mon.nFixFree > 0)) {
            c.nontrivial(c.log.str());
        }
    }
}

} // namespace

CHECK(C04) { run(c, What::Clauses); }
CHECK(C05) { run(c, What::Conflicts); }
CHECK(C06) { run(c, What::Strength); }

} // namespace M
