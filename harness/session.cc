// Multi-shot sessions with known answers.
#include "dlmon.hh"

namespace M {

void Session::step() {
    GenOpt g = go;
    g.step = steps;
    g.base = static_cast<int>(inst.atoms.size());
    if (inst.vars.empty()) {
        inst.vars = varNames(c.rng, c.rng.range(go.minVars, go.maxVars), go.nestedNames);
    } else if (c.rng.chance(40)) {
        inst.vars.push_back("w(" + std::to_string(steps) + ")");
    }
    g.vars = inst.vars;
    g.bodyAtoms = inst.choices;
    for (auto const &[e, s] : externals) {
        if (s != -2) {
            g.bodyAtoms.push_back(e);
        }
    }
    for (size_t i = 0; i < inst.atoms.size(); ++i) {
        if (inst.atoms[i].body) {
            g.bodyAtoms.push_back("bb(" + std::to_string(i) + ")");
        }
    }
    auto next = generate(c.rng, g);
    auto alt = post ? post(next) : std::string{};
    auto name = "s" + std::to_string(steps);
    auto text = "#program " + name + ".\n" + next.dl();
    c.log << "% step " << steps << "\n" << text;
    for (auto const &e : next.externals) {
        externals[e] = -1;
    }
    inst.append(next);
    ++steps;
    addPart(name, text, alt.empty() ? alt : "#program " + name + ".\n" + alt);
}

void Session::addPart(std::string const &name, std::string const &text, std::string const &alt) {
    auto op = [name, text, alt](DLRun &run) {
        run.parse(run.plainValues && !alt.empty() ? alt : text);
        run.ground({{name, {}}});
    };
    ops.push_back({op, false, {}, {}, 0});
    op(run);
}

void Session::shuffleExternals() {
    OutScope os;
    for (auto &[e, s] : externals) {
        if (s == -2 || !c.rng.chance(60)) {
            continue;
        }
        s = c.rng.pick({1, 1, -1, 0, c.rng.chance(20) ? -2 : -1});
        auto op = [sym = Clingo::parse_term(e.c_str()), s = s](DLRun &run) {
            if (s == -2) {
                run.ctl().release_external(sym);
            } else {
                run.ctl().assign_external(sym, s == 1    ? Clingo::TruthValue::True
                                               : s == -1 ? Clingo::TruthValue::False
                                                         : Clingo::TruthValue::Free);
            }
        };
        ops.push_back({op, false, {}, {}, 0});
        op(run);
        c.log << "% external " << e << " " << s << "\n";
    }
}

void Session::randomThreads() {
    if (!threads || !c.rng.chance(60)) {
        return;
    }
    OutScope os;
    nThreads = c.rng.pick({1, 1, 2, 3, 4});
    auto mode = std::to_string(nThreads) + (nThreads > 1 && c.rng.chance(50) ? ",split" : "");
    c.log << "% threads " << mode << "\n";
    auto op = [mode](DLRun &run) {
        auto conf = run.ctl().configuration();
        conf["solve"]["parallel_mode"] = mode.c_str();
    };
    ops.push_back({op, false, {}, {}, 0});
    op(run);
    threadsChanged = true;
}

void Session::pickAssumptions() {
    assumptions.clear();
    assumed = {};
    if (!c.rng.chance(40)) {
        return;
    }
    auto add = [&](std::string const &a) {
        bool pos = c.rng.chance(50);
        assumptions.emplace_back(Clingo::parse_term(a.c_str()), pos);
        (pos ? assumed.required : assumed.forbidden).push_back(a);
        c.log << "% assume " << (pos ? "" : "not ") << a << "\n";
    };
    for (auto const &a : inst.choices) {
        if (c.rng.chance(30)) {
            add(a);
        }
    }
    for (size_t i = 0; i < inst.atoms.size(); ++i) {
        if (inst.atoms[i].body && c.rng.chance(15)) {
            add("bb(" + std::to_string(i) + ")");
        }
    }
}

RefResult Session::expect() {
    auto opt = assumed;
    for (auto const &[e, s] : externals) {
        if (s == 1) {
            opt.required.push_back(e);
        } else if (s != 0) {
            opt.forbidden.push_back(e);
        }
    }
    opt.limit = 3000;
    return reference(inst, opt);
}

namespace {

void compareOutcome(SolveOut const &out, Keys const &expected, Inst const &inst, char const *what) {
    auto keys = keysOf(out, inst.atoms, inst.vars);
    compareKeys(expected, keys, what);
    if (out.sat == expected.empty() || out.unsat != expected.empty()) {
        violate(std::string(what) + ": wrong solve result");
    }
}

} // namespace

bool Session::environmentBroken(SolveOut const *out) {
    OutScope os;
    // answers have to be answers of the logic program if constraints are ignored
    for (size_t i = 0; out != nullptr && i < out->models.size(); ++i) {
        auto const &m = out->models[i];
        RefOpt opt;
        opt.theory = false;
        opt.required = m.atoms;
        std::set<std::string> has(m.atoms.begin(), m.atoms.end());
        for (auto const &a : inst.choices) {
            if (has.count(a) == 0) {
                opt.forbidden.push_back(a);
            }
        }
        for (auto const &[a, s] : externals) {
            if (has.count(a) == 0) {
                opt.forbidden.push_back(a);
            }
        }
        for (size_t j = 0; j < inst.atoms.size(); ++j) {
            auto a = "bb(" + std::to_string(j) + ")";
            if (inst.atoms[j].body && has.count(a) == 0) {
                opt.forbidden.push_back(a);
            }
        }
        bool found = false;
        for (auto const &a : reference(inst, opt).answers) {
            if (a.atoms == m.atoms) {
                found = true;
                break;
            }
        }
        if (!found) {
            return true;
        }
        if (i > 200) {
            break;
        }
    }
    int tries = threads ? 5 : 1;
    for (int i = 0; i < tries; ++i) {
        nextPlain = true;
        DLRun plain{{}, args};
        nextPlain = false;
        try {
            for (auto const &op : ops) {
                if (op.compare) {
                    plain.solveMode = op.solveMode;
                    compareOutcome(plain.solve(op.assumptions), op.keys, inst, "");
                } else {
                    op.fn(plain);
                }
            }
        } catch (Violation const &) {
            return true;
        }
    }
    return false;
}

int Session::solveCompare(char const *what) {
    auto ref = expect();
    if (!ref.complete) {
        c.count("skipped (too many answers)");
        return -1;
    }
    SolveOut out;
    ops.push_back({nullptr, true, ref.keys, assumptions, run.solveMode});
    try {
        compareOutcome(out = solve(), ref.keys, inst, what);
    } catch (std::exception const &) {
        if (checkEnv && environmentBroken(&out)) {
            c.count("skipped (libclingo fails without the theory, too)");
            return -1;
        }
        throw;
    }
    c.count("models", out.models.size());
    c.count("solves");
    return static_cast<int>(ref.keys.size());
}

} // namespace M
