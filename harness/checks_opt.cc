// C08: minimization.
#include "dlmon.hh"

#include <clingo-dl-app/app.hh>

namespace M {

namespace {

//! Records models reported during minimization.
class OptHandler : public Clingo::SolveEventHandler {
  public:
    DLRun &run;
    std::function<void(Model const &)> cb;
    std::optional<i64> optimum, lower;
    u64 stats{0};
    OptHandler(DLRun &r, std::function<void(Model const &)> f) : run{r}, cb{std::move(f)} {}
    bool on_model(Clingo::Model &model) override {
        OutScope os;
        cb(run.extract(model));
        return true;
    }
    void on_statistics(Clingo::UserStatistics step, Clingo::UserStatistics accu) override {
        OutScope os;
        ++stats;
        bool ret = clingodl_on_statistics(run.theory, step.to_c(), accu.to_c());
        Clingo::Detail::handle_error(ret);
        for (auto &root : {step, accu}) {
            auto r = root;
            if (!r.has_subkey("DifferenceLogic")) {
                continue;
            }
            auto diff = r["DifferenceLogic"];
            if (diff.has_subkey("Optimization")) {
                optimum = static_cast<i64>(diff["Optimization"].value());
            }
            if (diff.has_subkey("Lower bound")) {
                lower = static_cast<i64>(diff["Lower bound"].value());
            }
        }
    }
};

bool boundAtom(std::string const &s) { return s.rfind("__sb(", 0) == 0; }

} // namespace

CHECK(C08) {
    auto &rng = c.rng;
    int kind = rng.range(0, 9);
    Inst inst;
    std::string var;
    int node = 0;
    if (kind < 7) {
        GenOpt go;
        go.minVars = 2;
        go.maxVars = 5;
        if (rng.chance(30)) {
            go.maxHead = 7;
            go.maxChoice = 5;
        }
        inst = generate(rng, go);
        node = rng.range(1, static_cast<int>(inst.vars.size()));
        // make sure that the variable is bounded from below in every answer
        auto bound = [&](std::string const &lit, bool neg) {
            TAtom a;
            a.body = false;
            a.u = node;
            a.v = rng.chance(70) || inst.vars.size() < 2 ? 0 : node % static_cast<int>(inst.vars.size()) + 1;
            a.rel = Rel::GE;
            a.k = rng.range(-60, 60);
            a.text = renderAtom(rng, a, inst.vars, true);
            Rule r;
            r.htatom = static_cast<int>(inst.atoms.size());
            if (!lit.empty()) {
                r.body.push_back({lit, -1, neg, false});
            }
            inst.atoms.push_back(a);
            inst.rules.push_back(r);
        };
        if (!inst.choices.empty() && rng.chance(50)) {
            auto ch = rng.pick(inst.choices);
            bound(ch, false);
            bound(ch, true);
        } else {
            bound("", false);
        }
    } else {
        inst = generateJobs(rng, rng.range(2, 3), rng.range(2, 3), rng.chance(20));
        node = static_cast<int>(std::find(inst.vars.begin(), inst.vars.end(), "makespan") - inst.vars.begin()) + 1;
        if (node > static_cast<int>(inst.vars.size())) {
            violate("internal: no makespan variable");
        }
    }
    var = inst.vars[node - 1];
    auto sym = Clingo::parse_term(var.c_str());
    RefOpt ro;
    ro.limit = 6000;
    auto ref = reference(inst, ro);
    if (!ref.complete) {
        c.count("skipped (too many answers)");
        return;
    }
    std::optional<i64> best;
    std::set<i64> values;
    for (auto const &a : ref.answers) {
        auto l = a.sys.lowest(node);
        if (!l) {
            c.count("skipped (variable unbounded)");
            return;
        }
        values.insert(*l);
        if (!best || *l < *best) {
            best = l;
        }
    }
    int threads = rng.chance(15) ? rng.range(2, 3) : 1;
    auto args = randomClaspArgs(rng, false, threads > 1);
    args.insert(args.begin(), {rng.pick<std::string>({"0", "1"}), "--warn=none", "--stats=2"});
    if (threads > 1) {
        args.push_back("-t" + std::to_string(threads) + (rng.chance(50) ? ",split" : ",compete"));
    }
    bool limited = rng.chance(12);
    if (limited) {
        args.push_back("--solve-limit=" + std::to_string(rng.pick({0, 1, 2, 5, 20})));
    }
    auto opts = randomDlOpts(rng, threads);
    ClingoDL::OptimizerConfig cfg;
    cfg.symbol = sym;
    cfg.active = true;
    switch (rng.range(0, 5)) {
        case 0: {
            cfg.factor = 1.0;
            break;
        }
        case 1: {
            cfg.factor = rng.pick({1.2, 1.5, 2.0, 3.7});
            break;
        }
        case 2: {
            cfg.factor = rng.pick({10.0, 100.0, 1e4});
            break;
        }
        case 3: {
            cfg.factor = rng.pick({1e6, 1e9, 2147483647.0});
            break;
        }
        default: {
            cfg.factor = 2.0;
            break;
        }
    }
    for (auto const &a : inst.atoms) {
        if (std::abs(a.k) > 200) {
            cfg.factor = 2.0; // otherwise there could be millions of steps
        }
    }
    if (rng.chance(40)) {
        cfg.has_initial = true;
        if (best && rng.chance(70)) {
            cfg.initial = static_cast<int>(*best + rng.pick({-5, -1, 0, 0, 1, 2, 10, 50}));
        } else {
            cfg.initial = rng.range(-100, 100);
        }
        if (best && cfg.initial < *best) {
            best.reset();
        }
    }
    c.log << "% options: " << optsStr(opts) << "\n% clingo: " << join(args) << "\n% minimize " << var << " factor "
          << cfg.factor << " initial " << (cfg.has_initial ? std::to_string(cfg.initial) : "none") << " optimum "
          << (best ? std::to_string(*best) : "none") << "\n"
          << inst.dl();
    DLRun run{opts, args};
    run.parse(inst.dl());
    run.ground();
    u64 models = 0;
    std::optional<i64> last;
    std::string error;
    OptHandler handler{run, [&](Model const &m0) {
                           ++models;
                           if (!error.empty()) {
                               return;
                           }
                           auto m = m0;
                           m.atoms.erase(std::remove_if(m.atoms.begin(), m.atoms.end(), boundAtom), m.atoms.end());
                           try {
                               auto key = keyOf(m.atoms, m.ival, inst.atoms, inst.vars);
                               if (ref.keys.count(key) == 0) {
                                   violate("model reported during minimization is no answer: " + key);
                               }
                               auto it = m.ival.find(var);
                               if (it == m.ival.end()) {
                                   violate("minimized variable has no value");
                               }
                               if (last && it->second >= *last) {
                                   violate("value " + std::to_string(it->second) + " does not improve on " +
                                           std::to_string(*last));
                               }
                               if (cfg.has_initial && it->second > cfg.initial) {
                                   violate("value exceeds initial bound");
                               }
                               last = it->second;
                           } catch (Violation const &v) {
                               error = v.what();
                           }
                       }};
    ClingoDL::Optimizer opt{cfg, handler, run.theory};
    {
        Scope s;
        opt.solve(run.ctl());
    }
    if (!error.empty()) {
        violate(error);
    }
    c.count("models", models);
    c.count("optimizer runs");
    if (!limited) {
        if (best && !last) {
            violate("no answer found but there is one with value " + std::to_string(*best));
        }
        if (best && *last != *best) {
            violate("stopped with value " + std::to_string(*last) + " but the optimum is " + std::to_string(*best));
        }
        if (!best && last) {
            violate("found an answer but there is none (within the initial bound)");
        }
    } else {
        c.count("limited runs");
    }
    if (handler.stats == 0) {
        violate("no statistics reported");
    }
    if (handler.optimum.has_value() != last.has_value() || (last && *handler.optimum != *last)) {
        violate("optimum in statistics is not the value of the last model");
    }
    if (handler.lower && best && *handler.lower > *best) {
        violate("lower bound in statistics exceeds the optimum: " + std::to_string(*handler.lower) + " > " +
                std::to_string(*best));
    }
    if (models > 1 && values.size() > 1) {
        c.count("runs with improvement");
        c.nontrivial(inst.dl() + var);
    }
}

} // namespace M
