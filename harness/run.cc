// Driving the library under test through its public C interface.
#include "dlmon.hh"

#include <algorithm>
#include <cmath>

namespace M {

std::string optsStr(Opts const &o) {
    std::string r;
    for (auto const &[k, v] : o) {
        r += (r.empty() ? "" : " ") + k + "=" + v;
    }
    return r;
}

namespace {

class Handler : public Clingo::SolveEventHandler {
  public:
    DLRun &run;
    SolveOut &out;
    std::function<bool(Clingo::Model &, Model &)> const &cb;
    bool on_model(Clingo::Model &model) override {
        OutScope os;
        auto m = run.extract(model);
        bool ret = !cb || cb(model, m);
        out.models.push_back(std::move(m));
        return ret;
    }
    void on_statistics(Clingo::UserStatistics step, Clingo::UserStatistics accu) override {
        OutScope os;
        run.reportStats(step, accu);
    }
    Handler(DLRun &r, SolveOut &o, std::function<bool(Clingo::Model &, Model &)> const &c) : run{r}, out{o}, cb{c} {}
};

} // namespace

DLRun::DLRun(Opts const &opts, std::vector<std::string> const &args, Mon *m,
             std::function<int(unsigned, unsigned)> strength)
    : mon{m}, fixStrength{std::move(strength)}, args{args} {
    OutScope os;
    std::vector<char const *> cargs;
    for (auto const &a : args) {
        cargs.push_back(a.c_str());
    }
    ctl_ = std::make_unique<Clingo::Control>(
        Clingo::StringSpan{cargs.data(), cargs.size()},
        [this](Clingo::WarningCode, char const *msg) { messages.emplace_back(msg); }, 100);
    {
        Scope s;
        Clingo::Detail::handle_error(clingodl_create(&theory));
    }
    try {
        if (auto const *env = std::getenv("DLMON_OPTS")) { // for debugging: key=value,...
            Opts forced;
            std::istringstream in{env};
            for (std::string kv; std::getline(in, kv, ';');) {
                forced.emplace_back(kv.substr(0, kv.find('=')), kv.substr(kv.find('=') + 1));
            }
            configure(forced);
        } else {
            configure(opts);
        }
        if (nextPlain) {
            registerPlain();
        } else {
            registerTheory();
        }
    } catch (...) {
        clingodl_destroy(theory);
        throw;
    }
}

DLRun::DLRun(clingodl_theory_t *t, clingo_control_t *control, Mon *m)
    : theory{t}, ctl_{std::make_unique<Clingo::Control>(control, false)}, mon{m}, ownTheory{false} {
    registerTheory();
}

DLRun::~DLRun() {
    // the control has to go first because its propagators refer to the theory
    OutScope os;
    if (!ownTheory) {
        return;
    }
    if (destroyTheoryFirst) {
        clingodl_destroy(theory);
        ctl_.reset();
    } else {
        ctl_.reset();
        clingodl_destroy(theory);
    }
}

void DLRun::configure(Opts const &opts) {
    for (auto const &[k, v] : opts) {
        Scope s;
        Clingo::Detail::handle_error(clingodl_configure(theory, k.c_str(), v.c_str()));
    }
}

void DLRun::registerTheory() {
    if (mon != nullptr) {
        nextMon = mon;
    }
    bool ret = false;
    {
        Scope s;
        ret = clingodl_register(theory, ctl_->to_c());
    }
    nextMon = nullptr;
    Clingo::Detail::handle_error(ret);
    if (mon != nullptr && mon->trackFix) {
        auto fix = std::make_shared<FixProp>(*mon);
        fix->strength = fixStrength;
        mon->fix = fix.get();
        mon->owned.push_back(fix);
        ctl_->register_propagator(*fix);
    }
}

void DLRun::parse(std::string const &program) {
    OutScope os;
    Clingo::AST::with_builder(*ctl_, [&](Clingo::AST::ProgramBuilder &builder) {
        auto *b = builder.to_c();
        struct Data {
            DLRun *run;
            clingo_program_builder_t *b;
        } data{this, b};
        auto parser = [](clingo_ast_t *ast, void *d) -> bool {
            auto &data = *static_cast<Data *>(d);
            auto add = [](clingo_ast_t *ast, void *d) -> bool {
                OutScope os;
                return clingo_program_builder_add(static_cast<Data *>(d)->b, ast);
            };
            Scope s;
            return clingodl_rewrite_ast(data.run->theory, ast, add, d);
        };
        struct Log {
            DLRun *run;
        };
        auto logger = [](clingo_warning_t, char const *msg, void *d) {
            static_cast<Data *>(d)->run->messages.emplace_back(msg);
        };
        Clingo::Detail::handle_error(
            clingo_ast_parse_string(program.c_str(), parser, &data, ctl_->to_c(), logger, &data, 100));
    });
}

void DLRun::ground(std::vector<std::pair<std::string, std::vector<Clingo::Symbol>>> const &parts) {
    OutScope os;
    std::vector<Clingo::Part> ps;
    for (auto const &[n, a] : parts) {
        ps.emplace_back(n.c_str(), Clingo::SymbolSpan{a.data(), a.size()});
    }
    if (!plainValues) {
        Scope s;
        Clingo::Detail::handle_error(clingodl_prepare(theory, ctl_->to_c()));
    }
    ctl_->ground(Clingo::PartSpan{ps.data(), ps.size()});
}

void DLRun::reportStats(Clingo::UserStatistics &step, Clingo::UserStatistics &accu) {
    if (withStats && !plainValues) {
        bool ret = false;
        {
            Scope s;
            CallbackScope cs{"on_statistics"};
            ret = clingodl_on_statistics(theory, step.to_c(), accu.to_c());
        }
        if (!ret) {
            // Note: exceptions must not leave the handler
            statsError = clingo_error_code() == clingo_error_bad_alloc ? "std::bad_alloc" : clingo_error_message();
            return;
        }
        if (onStats) {
            onStats(step, accu);
        }
    }
}

SolveOut DLRun::solve(std::vector<Clingo::SymbolicLiteral> const &assumptions,
                      std::function<bool(Clingo::Model &, Model &)> const &onModel) {
    OutScope os;
    SolveOut out;
    statsError.clear();
    Clingo::SymbolicLiteralSpan ass{assumptions.data(), assumptions.size()};
    static std::function<bool(Clingo::Model &, Model &)> const none;
    Handler h{*this, out, solveMode == 1 ? none : onModel};
    Clingo::SolveResult r;
    if (solveMode == 1) {
        // yielding mode
        class Stats : public Clingo::SolveEventHandler {
          public:
            DLRun &run;
            void on_statistics(Clingo::UserStatistics step, Clingo::UserStatistics accu) override {
                OutScope os;
                run.reportStats(step, accu);
            }
            Stats(DLRun &r) : run{r} {}
        } stats{*this};
        auto handle = ctl_->solve(ass, &stats, false, true);
        while (true) {
            auto const &cm = handle.model();
            if (!cm) {
                break;
            }
            auto &mm = const_cast<Clingo::Model &>(cm);
            auto m = extract(mm);
            bool ret = !onModel || onModel(mm, m);
            out.models.push_back(std::move(m));
            if (!ret) {
                handle.cancel();
                break;
            }
            handle.resume();
        }
        r = handle.get();
    } else {
        auto handle = ctl_->solve(ass, &h, solveMode == 2, false);
        r = handle.get();
    }
    if (!statsError.empty()) {
        throw std::runtime_error(statsError);
    }
    out.sat = r.is_satisfiable();
    out.unsat = r.is_unsatisfiable();
    out.unknown = r.is_unknown();
    out.interrupted = r.is_interrupted();
    out.exhausted = r.is_exhausted();
    return out;
}

Model DLRun::extract(Clingo::Model &m, bool extend) {
    OutScope os;
    Model res;
    for (auto const &s : m.symbols(Clingo::ShowType::Atoms)) {
        res.atoms.push_back(s.to_string());
    }
    std::sort(res.atoms.begin(), res.atoms.end());
    res.thread = m.thread_id();
    res.cost = m.cost();
    if (plainValues) {
        res.ival = plainValues(res.thread);
        return res;
    }
    size_t idx = 0;
    {
        Scope s;
        clingodl_assignment_begin(theory, res.thread, &idx);
        while (clingodl_assignment_next(theory, res.thread, &idx)) {
            clingodl_value_t v;
            clingodl_assignment_get_value(theory, res.thread, idx, &v);
            auto name = Clingo::Symbol{clingodl_get_symbol(theory, idx)}.to_string();
            if (v.type == clingodl_value_type_int) {
                if (!res.ival.emplace(name, v.int_number).second) {
                    violate("variable " + name + " reported twice by iteration");
                }
            } else if (v.type == clingodl_value_type_double) {
                if (!res.dval.emplace(name, v.double_number).second) {
                    violate("variable " + name + " reported twice by iteration");
                }
                if (scaleReals) {
                    res.ival.emplace(name, std::llround(v.double_number * 1000000));
                }
            } else {
                violate("value of " + name + " has unexpected type");
            }
        }
    }
    if (extend) {
        bool ret = false;
        {
            Scope s;
            CallbackScope cs{"on_model"};
            ret = clingodl_on_model(theory, m.to_c());
        }
        Clingo::Detail::handle_error(ret);
        for (auto const &s : m.symbols(Clingo::ShowType::Theory)) {
            res.dlterms.push_back(s.to_string());
        }
        std::sort(res.dlterms.begin(), res.dlterms.end());
    }
    return res;
}

DLStats readStats(Clingo::Control &ctl, char const *root) {
    OutScope os;
    DLStats res;
    auto all = ctl.statistics();
    if (!all.has_subkey(root)) {
        return res;
    }
    auto user = all[root];
    if (!user.has_subkey("DifferenceLogic")) {
        return res;
    }
    auto dl = user["DifferenceLogic"];
    res.present = true;
    for (auto const *key : dl.keys()) {
        auto val = dl[key];
        if (val.type() == Clingo::StatisticsType::Value) {
            res.values[key] = val.value();
        } else if (val.type() == Clingo::StatisticsType::Array) {
            for (auto thread : val) {
                res.threads.emplace_back();
                for (auto const *tkey : thread.keys()) {
                    res.threads.back()[tkey] = thread[tkey].value();
                }
            }
        }
    }
    return res;
}

Keys keysOf(SolveOut const &out, std::vector<TAtom> const &tatoms, std::vector<std::string> const &vars) {
    Keys keys;
    for (auto const &m : out.models) {
        keys[keyOf(m.atoms, m.ival, tatoms, vars)]++;
    }
    return keys;
}

void compareKeys(Keys const &expected, Keys const &got, char const *what) {
    if (expected == got) {
        return;
    }
    std::ostringstream o;
    int shown = 0;
    for (auto const &[k, n] : expected) {
        auto it = got.find(k);
        int g = it == got.end() ? 0 : it->second;
        if (g != n && ++shown <= (std::getenv("DLMON_OPTS") ? 200 : 4)) {
            o << "; answer {" << k << "} expected " << n << "x got " << g << "x";
        }
    }
    for (auto const &[k, n] : got) {
        if (expected.count(k) == 0 && ++shown <= (std::getenv("DLMON_OPTS") ? 200 : 4)) {
            o << "; answer {" << k << "} not expected but got " << n << "x";
        }
    }
    violate(std::string(what) + ": answers differ (" + std::to_string(expected.size()) + " expected, " +
            std::to_string(got.size()) + " reported)" + o.str());
}

Opts randomDlOpts(Rng &rng, int threads, bool heuristics) {
    Opts o;
    auto target = [&]() -> std::string {
        return threads > 1 && rng.chance(60) ? "," + std::to_string(rng.range(0, threads - 1)) : "";
    };
    int n = threads > 1 ? rng.range(1, threads) : 1;
    for (int i = 0; i < n; ++i) {
        if (rng.chance(85)) {
            o.emplace_back("propagate",
                           rng.pick<std::string>({"no", "inverse", "partial", "partial+", "zero", "full"}) + target());
        }
        if (rng.chance(30)) {
            o.emplace_back("propagate-root", std::to_string(rng.pick({0, 1, 2, 3, 100})) + target());
        }
        if (rng.chance(30)) {
            o.emplace_back("propagate-budget", std::to_string(rng.pick({0, 1, 2, 5, 20, 1000})) + target());
        }
        if (rng.chance(40)) {
            o.emplace_back("sort-edges", rng.pick<std::string>({"no", "weight", "weight-reversed", "potential",
                                                                "potential-reversed"}) +
                                             target());
        }
    }
    if (rng.chance(40)) {
        o.emplace_back("add-mutexes", rng.pick<std::string>({"0", "1", "2", "3", "4", "10", "2,1", "3,5", "5,0", "4,1000"}));
    }
    if (heuristics && rng.chance(30)) {
        o.emplace_back("dl-heuristic", rng.pick<std::string>({"no", "min", "max"}));
    }
    if (rng.chance(25)) {
        o.emplace_back("compute-components", rng.pick<std::string>({"no", "yes", "off"}));
    }
    return o;
}

std::vector<std::string> randomClaspArgs(Rng &rng, bool proj, bool parallel) {
    static_cast<void>(proj);
    std::vector<std::string> a;
    auto add = [&](int p, std::string s) {
        if (rng.chance(p)) {
            a.push_back(std::move(s));
        }
    };
    add(25, "--configuration=" + rng.pick<std::string>({"frumpy", "jumpy", "tweety", "handy", "crafty", "trendy"}));
    add(50, "--seed=" + std::to_string(rng.range(1, 100000)));
    add(25, "--eq=" + std::to_string(rng.pick({0, 1, 3, -1})));
    add(20, "--sat-prepro=" + rng.pick<std::string>({"0", "1", "2", "2,iter=5,occ=10"}));
    add(25, "--rand-freq=" + rng.pick<std::string>({"0.1", "0.5", "1.0"}));
    add(25, "--sign-def=" + rng.pick<std::string>({"asp", "pos", "neg", "rnd"}));
    add(20, "--heuristic=" + rng.pick<std::string>({"Berkmin", "Vmtf", "Vsids", "Unit", "None"}));
    // Note: libclingo 5.6.2 crashes if models are recorded in parallel in several steps
    add(20, "--enum-mode=" + (parallel ? "bt" : rng.pick<std::string>({"bt", "record"})));
    add(10, "--trans-ext=" + rng.pick<std::string>({"all", "no", "dynamic"}));
    add(10, "--lookahead=atom");
    add(10, "--deletion=no");
    add(10, "--restarts=F,1");
    return a;
}

} // namespace M
