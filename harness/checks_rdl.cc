// C17: difference constraints over real numbers.
#include "dlmon.hh"

#include <algorithm>
#include <cmath>

namespace M {

namespace {

//! Write a multiple of 10^-6 as a decimal.
std::string decimal(Rng &rng, i64 k) {
    i64 a = k < 0 ? -k : k;
    auto frac = std::to_string(a % 1000000);
    frac.insert(0, 6 - frac.size(), '0');
    while (!frac.empty() && frac.back() == '0' && rng.chance(90)) {
        frac.pop_back();
    }
    auto whole = std::to_string(a / 1000000);
    bool small = a / 1000000 <= 2000000000;
    if (small && a % 1000000 == 0 && rng.chance(70)) {
        return k < 0 ? "(-" + whole + ")" : whole;
    }
    if (whole == "0" && !frac.empty() && rng.chance(10)) {
        whole = "";
    }
    std::string str = whole + (frac.empty() ? "" : "." + frac);
    if (k < 0) {
        return rng.chance(50) ? "\"-" + str + "\"" : "(-\"" + str + "\")";
    }
    return "\"" + str + "\"";
}

//! Write an arithmetic expression whose value is the given multiple of 10^-6.
std::string number(Rng &rng, i64 k, int depth = 2) {
    i64 r = rng.range(-3000, 3000) * rng.pick({1, 500, 1000});
    switch (depth > 0 ? rng.range(0, 9) : 0) {
        case 1: return "(" + number(rng, k - r, depth - 1) + " + " + number(rng, r, depth - 1) + ")";
        case 2: return "(" + number(rng, k + r, depth - 1) + " - " + number(rng, r, depth - 1) + ")";
        case 3: {
            for (int f : {10, 4, 5, 3, 2}) {
                if (k % f == 0 && rng.chance(60)) {
                    auto a = number(rng, k / f, depth - 1);
                    auto b = std::to_string(f);
                    return rng.chance(50) ? "(" + a + " * " + b + ")" : "(" + b + " * " + a + ")";
                }
            }
            break;
        }
        case 4: {
            // only positive literals are supported as operands of division
            int f = rng.pick({2, 4, 5, 10});
            if (k >= 0) {
                return "(" + decimal(rng, k * f) + " / " + std::to_string(f) + ")";
            }
            return "(-(" + decimal(rng, -k * f) + " / " + std::to_string(f) + "))";
        }
        case 5: {
            if (k % 1000 == 0) {
                return "(\"0.001\" * " + decimal(rng, k * 1000) + ")";
            }
            break;
        }
        default: break;
    }
    return decimal(rng, k);
}

std::string render(Rng &rng, TAtom const &a, std::vector<std::string> const &vars) {
    std::string u = a.u == 0 ? rng.pick<std::string>({"0", "\"0\"", "\"0.0\""}) : vars[a.u - 1];
    std::string v = a.v == 0 ? "0" : vars[a.v - 1];
    auto r = relStr(a.rel);
    auto f = relStr(flip(a.rel));
    i64 c = rng.range(-3000, 3000) * rng.pick({1, 10, 500, 1000});
    switch (rng.range(0, 10)) {
        case 0: return "&diff { - " + v + " + " + u + " } " + r + " " + number(rng, a.k);
        case 1: return "&diff { " + u + " } " + r + " " + v + " + " + number(rng, a.k);
        case 2: return "&diff { " + u + " - " + number(rng, a.k) + " } " + r + " " + v;
        case 3: return "&diff { " + v + " - " + u + " } " + f + " " + number(rng, -a.k);
        case 4: return "&diff { 2*" + u + " - " + v + " - " + u + " } " + r + " " + number(rng, a.k);
        case 5: return "&diff { " + u + " - " + v + " + " + number(rng, c) + " } " + r + " " + number(rng, a.k + c);
        case 6: return "&diff { " + number(rng, a.k) + " } " + f + " " + u + " - " + v;
        case 7: return "&diff { \"0.5\"*" + u + " - \"1.0\"*" + v + " + \"0.5\"*" + u + " } " + r + " " + number(rng, a.k);
        case 8: return "&diff { " + v + " + " + number(rng, c) + " } " + f + " " + u + " + " + number(rng, c - a.k);
        default: return "&diff { " + u + " - " + v + " } " + r + " " + number(rng, a.k);
    }
}

} // namespace

std::string makeReal(Rng &rng, Inst &inst, bool strict) {
    // Note: Strict inequalities get a margin. If all constants are multiples
    // of 0.001, then satisfiable programs can be satisfied with the margin.
    if (!strict) {
        for (auto &a : inst.atoms) {
            a.rel = a.rel == Rel::LT ? Rel::LE : a.rel == Rel::GT ? Rel::GE : a.rel == Rel::NE ? Rel::EQ : a.rel;
        }
    }
    i64 unit = strict ? rng.pick({1000, 1000, 10000, 100000, 250000, 1000000})
                      : rng.pick({1, 1, 7, 10, 333333, 100000, 125000, 1000000});
    auto ints = inst;
    ints.extra = "";
    for (size_t i = 0; i < inst.atoms.size(); ++i) {
        auto &a = inst.atoms[i];
        a.k *= unit;
        if (rng.chance(30)) {
            a.k += rng.range(-2, 2) * (strict ? 1000 : rng.pick({1, 100000, 1}));
        }
        a.text = render(rng, a, inst.vars);
        ints.atoms[i].k = a.k;
        ints.atoms[i].rel = a.rel;
        // Note: numerals larger than 32 bits are not supported
        auto name = [&](int x) { return x == 0 ? std::string("0") : inst.vars[x - 1]; };
        ints.atoms[i].text = "&diff { " + name(a.u) + " - " + name(a.v) + " } " + relStr(a.rel) + " (" +
                             std::to_string(a.k / 1000000) + " * 1000000 + (" + std::to_string(a.k % 1000000) + "))";
    }
    return ints.dl();
}

CHECK(C17) {
    auto &rng = c.rng;
    int threads = rng.chance(15) ? rng.range(2, 3) : 1;
    bool multi = rng.chance(30);
    auto args = randomClaspArgs(rng, false, threads > 1);
    args.insert(args.begin(), {"0", "--warn=none"});
    if (threads > 1) {
        args.push_back("-t" + std::to_string(threads) + (rng.chance(50) ? ",split" : ",compete"));
    }
    auto opts = randomDlOpts(rng, threads);
    opts.insert(opts.begin() + rng.range(0, static_cast<int>(opts.size())), {"rdl", "yes"});
    c.log << "% options: " << optsStr(opts) << "\n% clingo: " << join(args) << "\n";
    GenOpt go;
    go.body = false;
    go.scale = rng.pick({1, 1, 3});
    go.maxHead = 7;
    go.maxVars = 5;
    if (multi) {
        go.maxExternals = 2;
        go.maxHead = 4;
        go.maxChoice = 2;
        go.maxRules = 2;
    }
    DLRun run{opts, args};
    run.scaleReals = true;
    Session s{c, run, go, false};
    bool strict = rng.chance(50);
    s.post = [&rng, strict](Inst &inst) { return makeReal(rng, inst, strict); };
    int steps = multi ? rng.range(2, 3) : 1;
    int answers = 0;
    u64 decimals = 0;
    for (int i = 0; i < steps; ++i) {
        s.step();
        run.solveMode = rng.range(0, 2);
        if (multi) {
            s.shuffleExternals();
            s.pickAssumptions();
        }
        auto n = s.solveCompare(("step " + std::to_string(i)).c_str());
        if (n < 0) {
            return;
        }
        answers += n;
        c.count("solves");
        c.count(n > 0 ? "satisfiable" : "unsatisfiable");
    }
    for (auto const &a : s.inst.atoms) {
        decimals += a.k % 1000000 != 0;
    }
    c.count("answers checked", answers);
    c.count("decimal constants", decimals);
    c.count(strict ? "programs with strict inequalities" : "programs without strict inequalities");
    if (answers > 0 && decimals > 0) {
        c.nontrivial(s.inst.dl());
    }
}

} // namespace M
