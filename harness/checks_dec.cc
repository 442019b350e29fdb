// C22: online monitoring of decisions.
#include "dlmon.hh"

#include <cmath>

namespace M {

namespace {

enum class Mode { No, Min, Max };

//! Judges every decision of one theory.
struct Judge {
    Mon &mon;
    Mode mode;
    bool rdl;
    clingodl_theory_t *theory{nullptr};
    std::vector<size_t> index; //!< node -> index of the symbol in the theory
    std::vector<bool> known;
    std::unordered_map<int, std::vector<Con>> attached;
    std::unordered_set<int> fuzzy; //!< variables of atoms that are not (only) conjunctions of difference constraints
    std::atomic<u64> judged{0}, switched{0}, violated{0}, plain{0}, undefined{0}, bothSigns{0};

    Judge(Mon &mon, Mode mode, bool rdl) : mon{mon}, mode{mode}, rdl{rdl} {
        mon.trackClauses = true;
        mon.afterInit = [this](clingo_propagate_init_t *) { init(); };
        mon.onDecide = [this](unsigned thread, clingo_assignment_t const *ass, int fallback, int decision) {
            decide(thread, ass, fallback, decision);
        };
    }
    void init() {
        attached.clear();
        for (auto const &lc : mon.cons) {
            if (lc.con.u != lc.con.v) {
                attached[lc.lit].push_back(lc.con);
            }
        }
        fuzzy.clear();
        for (auto const &g : mon.gatoms) {
            std::string u;
            std::string v;
            i64 k{};
            if (!asDiff(g, u, v, k) || g.rel == Rel::NE || (g.strict && g.rel == Rel::EQ)) {
                fuzzy.insert(std::abs(g.lit));
            }
        }
        index.assign(mon.nodeName.size(), 0);
        known.assign(mon.nodeName.size(), false);
        for (size_t i = 1; i < mon.nodeName.size(); ++i) {
            auto sym = Clingo::parse_term(mon.nodeName[i].c_str());
            known[i] = clingodl_lookup_symbol(theory, sym.to_c(), &index[i]);
        }
    }
    std::optional<double> value(unsigned thread, int node) {
        if (node == 0) {
            return 0.0;
        }
        if (!known[node] || !clingodl_assignment_has_value(theory, thread, index[node])) {
            return std::nullopt;
        }
        clingodl_value_t val;
        clingodl_assignment_get_value(theory, thread, index[node], &val);
        return rdl ? val.double_number : static_cast<double>(val.int_number);
    }
    //! 1 satisfied, 0 violated, -1 cannot be told, -2 no constraint
    int state(unsigned thread, int lit) {
        auto it = attached.find(lit);
        if (it == attached.end()) {
            return -2;
        }
        int ret = -2;
        for (auto const &con : it->second) {
            auto u = value(thread, con.u);
            auto v = value(thread, con.v);
            if (!u || !v) {
                return -1;
            }
            double slack = static_cast<double>(con.w) - (*u - *v);
            if (rdl && std::abs(slack) < 1.5) {
                return -1; // strict inequalities over real numbers
            }
            int now = slack >= 0 ? 1 : 0;
            if (ret >= 0 && ret != now) {
                return -1;
            }
            ret = now;
        }
        return ret;
    }
    void decide(unsigned thread, clingo_assignment_t const *ass, int fallback, int decision) {
        if (decision != 0 && decision != fallback && decision != -fallback) {
            mon.error("a literal of a variable that was not proposed is decided: " + std::to_string(decision) +
                      " instead of " + std::to_string(fallback));
            return;
        }
        bool flip = decision == -fallback;
        if (flip) {
            switched++;
        }
        if (mode == Mode::No) {
            if (flip) {
                mon.error("decision changed though no heuristic is configured");
            }
            return;
        }
        if (mon.aux.count(std::abs(fallback)) != 0 || fuzzy.count(std::abs(fallback)) != 0) {
            return;
        }
        bool free{};
        if (clingo_assignment_is_fixed(ass, fallback, &free) && free) {
            mon.error("decision over a literal that is assigned already");
        }
        int a = state(thread, fallback);
        int b = state(thread, -fallback);
        if (a == -2 && b == -2) {
            plain++;
            if (flip) {
                mon.error("decision over a literal without constraint changed");
            }
            return;
        }
        if (a == -1 || b == -1) {
            undefined++;
            return;
        }
        if (a >= 0 && b >= 0) {
            bothSigns++;
            if (a == b) {
                return; // both signs are equally good
            }
        }
        // the sign with the constraint that agrees/disagrees (absent constraints complement the other sign)
        int agree = a == 1 || b == 0 ? fallback : -fallback;
        if (a == 0 || (a == 1 && b == -2) || b == 1) {
            violated += a == 0 || b == 0 ? 1 : 0;
        }
        int expected = mode == Mode::Min ? agree : -agree;
        judged++;
        if ((decision == 0 ? fallback : decision) != expected) {
            std::ostringstream o;
            o << "with " << (mode == Mode::Min ? "min" : "max") << " literal " << decision << " is decided where "
              << fallback << " was proposed:";
            for (int l : {fallback, -fallback}) {
                for (auto const &con : attached[l]) {
                    o << " [" << l << ": " << mon.nodeName[con.u] << "=" << *value(thread, con.u) << " - "
                      << mon.nodeName[con.v] << "=" << *value(thread, con.v) << " <= " << con.w << "]";
                }
            }
            mon.error(o.str());
        }
    }
};

struct Side {
    Mon mon;
    Mode mode{Mode::No};
    Judge judge;
    Inst inst;
    bool rdl{false};
    std::unique_ptr<DLRun> run;
    RefResult ref;
    explicit Side(Mode m, bool rdl) : mode{m}, judge{mon, m, rdl}, rdl{rdl} {}
};

} // namespace

CHECK(C22) {
    auto &rng = c.rng;
    int n = rng.chance(30) ? 2 : 1;
    bool large = rng.chance(50);
    std::vector<std::unique_ptr<Side>> sides;
    for (int i = 0; i < n; ++i) {
        auto mode = rng.pick({Mode::No, Mode::Min, Mode::Min, Mode::Max, Mode::Max});
        bool rdl = rng.chance(10);
        auto s = std::make_unique<Side>(mode, rdl);
        int threads = rng.chance(15) ? rng.range(2, 3) : 1;
        auto args = randomClaspArgs(rng);
        args.insert(args.begin(), {"--warn=none"});
        if (threads > 1) {
            args.push_back("-t" + std::to_string(threads) + ",split");
        }
        auto opts = randomDlOpts(rng, threads, false);
        char const *val = mode == Mode::Min ? "min" : mode == Mode::Max ? "max" : "no";
        if (rdl) {
            opts.emplace_back("rdl", "yes");
        }
        if (mode != Mode::No || rng.chance(50)) {
            if (rng.chance(20)) {
                opts.emplace_back("dl-heuristic", rng.pick<std::string>({"no", "min", "max"}));
            }
            opts.emplace_back("dl-heuristic", val);
        }
        if (large) {
            if (!rdl && rng.chance(50)) {
                s->inst = generateJobs(rng, rng.range(2, 5), rng.range(2, 4), rng.chance(70));
            } else {
                GenOpt go;
                go.minVars = 4;
                go.maxVars = 9;
                go.maxBody = 6;
                go.maxHead = 12;
                go.maxChoice = 6;
                go.maxRules = 4;
                go.disj = false;
                go.body = !rdl;
                s->inst = generate(rng, go);
            }
            args.emplace_back("30");
            args.emplace_back("--solve-limit=300");
        } else {
            GenOpt go;
            go.body = !rdl;
            s->inst = generate(rng, go);
            args.emplace_back("0");
            RefOpt ro;
            ro.limit = 3000;
            s->ref = reference(s->inst, ro);
            if (!s->ref.complete) {
                c.count("skipped (too many answers)");
                return;
            }
        }
        c.log << "% options: " << optsStr(opts) << "\n% clingo: " << join(args) << "\n" << s->inst.dl();
        s->run = std::make_unique<DLRun>(opts, args, &s->mon);
        s->judge.theory = s->run->theory;
        sides.push_back(std::move(s));
    }
    for (auto &s : sides) {
        s->run->parse(s->inst.dl());
        s->run->ground();
    }
    for (auto &s : sides) {
        s->run->scaleReals = s->rdl;
        auto out = s->run->solve();
        s->mon.throwErrors();
        if (!large && !s->rdl) {
            compareKeys(s->ref.keys, keysOf(out, s->inst.atoms, s->inst.vars), "enumeration with decision heuristic");
            c.count("answers", out.models.size());
        }
        if (s->mode == Mode::No) {
            c.count("decisions without heuristic", s->mon.nDecide);
        } else {
            std::string name = s->mode == Mode::Min ? "min" : "max";
            c.count("decisions with " + name, s->mon.nDecide);
            c.count("decisions judged with " + name, s->judge.judged);
            c.count("decisions judged with switched sign", s->judge.switched);
            c.count("decisions with constraints for both signs", s->judge.bothSigns);
            c.count("decisions over other literals", s->judge.plain);
            c.count("decisions where values are undefined", s->judge.undefined);
            if (s->judge.judged > 0) {
                c.nontrivial(c.log.str());
            }
        }
    }
}

} // namespace M
