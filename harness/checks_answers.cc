// C01-C03: assignments, completeness, option independence.
#include "dlmon.hh"

namespace M {

namespace {

std::vector<std::string> baseArgs(Rng &rng, int threads, char const *models = "0") {
    auto args = randomClaspArgs(rng);
    args.insert(args.begin(), {models, "--warn=none"});
    if (threads > 1) {
        args.push_back("-t" + std::to_string(threads) + (rng.chance(50) ? ",split" : ",compete"));
    }
    return args;
}

} // namespace

CHECK(C01) {
    auto &rng = c.rng;
    int kind = rng.range(0, 9);
    GenOpt go;
    Inst inst;
    int threads = rng.pick({1, 1, 1, 2, 3});
    char const *models = "0";
    if (kind < 5) {
        inst = generate(rng, go);
        c.count("small instances");
    } else if (kind < 7) {
        go.minVars = 6;
        go.maxVars = 14;
        go.maxBody = 8;
        go.maxHead = 30;
        go.maxChoice = 12;
        go.maxRules = 6;
        inst = generate(rng, go);
        models = "60";
        c.count("medium instances");
    } else {
        inst = generateJobs(rng, rng.range(2, c.thorough ? 7 : 5), rng.range(2, c.thorough ? 5 : 4), rng.chance(60));
        models = "25";
        c.count("scheduling instances");
    }
    auto args = baseArgs(rng, threads, models);
    args.emplace_back("--solve-limit=3000");
    auto opts = randomDlOpts(rng, threads);
    if (rng.chance(15)) {
        opts.emplace_back("shift-constraints", "yes");
    }
    c.log << "% options: " << optsStr(opts) << "\n% clingo: " << join(args) << "\n" << inst.dl();
    DLRun run{opts, args};
    run.solveMode = rng.range(0, 2);
    run.parse(inst.dl());
    run.ground();
    u64 vals = 0;
    u64 force = 0;
    auto out = run.solve({}, [&](Clingo::Model &, Model &m) {
        keyOf(m.atoms, m.ival, inst.atoms, inst.vars); // verifies the assignment
        vals += m.ival.size();
        for (auto const &a : m.atoms) {
            force += a.rfind("hh(", 0) == 0 || a.rfind("bb(", 0) == 0;
        }
        return true;
    });
    c.count("models", out.models.size());
    c.count("values checked", vals);
    c.count("true constraints checked", force);
    if (!out.models.empty() && force > 0) {
        c.nontrivial(inst.dl());
    }
}

CHECK(C02) {
    auto &rng = c.rng;
    GenOpt go;
    if (rng.chance(25)) {
        go.maxVars = 7;
        go.maxBody = 4;
        go.maxHead = 8;
        go.maxChoice = 4;
        go.maxRules = 5;
    }
    auto inst = rng.chance(8) ? generateJobs(rng, rng.range(2, 4), 2, rng.chance(70)) : generate(rng, go);
    int threads = rng.chance(10) ? 2 : 1;
    auto args = baseArgs(rng, threads);
    auto opts = randomDlOpts(rng, threads);
    if (rng.chance(15)) {
        opts.emplace_back("shift-constraints", "yes");
    }
    c.log << "% options: " << optsStr(opts) << "\n% clingo: " << join(args) << "\n" << inst.dl();
    RefOpt ro;
    ro.limit = 4000;
    auto ref = reference(inst, ro);
    if (!ref.complete) {
        c.count("skipped (too many answers)");
        return;
    }
    DLRun run{opts, args};
    run.solveMode = rng.range(0, 2);
    run.parse(inst.dl());
    run.ground();
    auto out = run.solve();
    auto keys = keysOf(out, inst.atoms, inst.vars);
    compareKeys(ref.keys, keys, "complete enumeration");
    c.count("models", out.models.size());
    c.count(ref.keys.empty() ? "unsatisfiable instances" : "satisfiable instances");
    if (out.sat != !ref.keys.empty() || out.unsat != ref.keys.empty() || !out.exhausted) {
        violate("wrong result flags");
    }
    // number of candidate answers without constraints: how many did consistency rule out?
    if (ref.keys.size() > 1 || ref.keys.empty()) {
        c.nontrivial(inst.dl());
    }
}

CHECK(C03) {
    auto &rng = c.rng;
    GenOpt go;
    auto inst = rng.chance(15) ? generateJobs(rng, rng.range(2, 3), rng.range(2, 3), rng.chance(80)) : generate(rng, go);
    c.log << inst.dl();
    using Full = std::map<std::string, int>;
    std::optional<Full> first[2];
    std::optional<Keys> keys;
    int rounds = c.thorough ? 12 : 5;
    for (int i = 0; i < rounds; ++i) {
        int threads = rng.chance(10) ? 2 : 1;
        auto args = baseArgs(rng, threads);
        Opts opts = i == 0 ? Opts{} : randomDlOpts(rng, threads);
        if (i == 1) {
            opts.emplace_back("propagate", "full");
        }
        bool cc = true;
        for (auto const &[k, v] : opts) {
            if (k == "compute-components") {
                cc = v == "yes";
            }
        }
        c.log << "% options: " << optsStr(opts) << " % clingo: " << join(args) << "\n";
        DLRun run{opts, args};
        run.parse(inst.dl());
        run.ground();
        auto out = run.solve({}, [&](Clingo::Model &, Model &) { return true; });
        Full full;
        for (auto const &m : out.models) {
            std::string s = join(m.atoms) + " |";
            for (auto const &[k, v] : m.ival) {
                s += " " + k + "=" + std::to_string(v);
            }
            full[s]++;
        }
        auto ks = keysOf(out, inst.atoms, inst.vars);
        if (keys) {
            compareKeys(*keys, ks, "different options");
        } else {
            keys = ks;
        }
        auto &f = first[cc ? 1 : 0];
        if (f) {
            compareKeys(*f, full, "different options (with values)");
        } else {
            f = full;
        }
        c.count("runs");
        c.count("models", out.models.size());
        for (auto const &[k, v] : opts) {
            c.tags->insert(k + "=" + v);
        }
        if (out.models.size() > 500) {
            break;
        }
    }
    if (keys->size() > 1) {
        c.nontrivial(inst.dl());
    }
}

} // namespace M
