// C09: all ways to ask for values agree.
#include "dlmon.hh"

#include <algorithm>

namespace M {

namespace {

struct Values {
    DLRun &run;
    Case &c;
    bool rdl;
    std::set<std::string> mentioned;       //!< variables that occur in ground constraints
    std::map<std::string, size_t> indices; //!< indices seen so far
    std::set<std::string> ever;            //!< all names ever asked for

    static bool same(clingodl_value_t const &a, clingodl_value_t const &b) {
        return a.type == b.type && (a.type == clingodl_value_type_int ? a.int_number == b.int_number
                                                                      : a.double_number == b.double_number);
    }

    size_t lookup(std::string const &name) {
        size_t idx = 0;
        bool ret = false;
        auto sym = Clingo::parse_term(name.c_str());
        {
            Scope s;
            ret = clingodl_lookup_symbol(run.theory, sym.to_c(), &idx);
        }
        return ret ? idx : 0;
    }
    bool has(unsigned thread, size_t idx) {
        Scope s;
        return clingodl_assignment_has_value(run.theory, thread, idx);
    }

    void learn() {
        clingo_theory_atoms_t const *atoms{};
        clingo_control_theory_atoms(run.ctl().to_c(), &atoms);
        size_t n{};
        clingo_theory_atoms_size(atoms, &n);
        for (size_t i = 0; i < n; ++i) {
            auto g = parseAtom(atoms, static_cast<clingo_id_t>(i));
            mentioned.insert(g.mentioned.begin(), g.mentioned.end());
        }
    }

    //! Compare all ways to ask for values of a thread. Returns the map from names to rendered values.
    std::map<std::string, std::string> query(unsigned thread, std::vector<std::string> const &names) {
        OutScope os;
        std::map<std::string, std::string> values;
        std::set<size_t> seen;
        size_t idx = 0;
        {
            Scope s;
            clingodl_assignment_begin(run.theory, thread, &idx);
        }
        size_t last = 0;
        while (true) {
            bool more = false;
            {
                Scope s;
                more = clingodl_assignment_next(run.theory, thread, &idx);
            }
            if (!more) {
                break;
            }
            if (!seen.insert(idx).second || idx <= last) {
                violate("iteration visits index " + std::to_string(idx) + " again");
            }
            if (seen.size() > 100000) {
                violate("iteration does not end");
            }
            last = idx;
            clingodl_value_t v{};
            clingodl_value_t w{};
            clingo_symbol_t sym{};
            {
                Scope s;
                sym = clingodl_get_symbol(run.theory, idx);
                clingodl_assignment_get_value(run.theory, thread, idx, &v);
                clingodl_assignment_get_value(run.theory, thread, idx, &w);
            }
            auto name = Clingo::Symbol{sym}.to_string();
            if (!same(v, w)) {
                violate("value of " + name + " differs if asked twice");
            }
            if (v.type != (rdl ? clingodl_value_type_double : clingodl_value_type_int)) {
                violate("type of the value of " + name + " does not match the mode");
            }
            if (mentioned.count(name) == 0) {
                violate("iteration visits " + name + ", which does not occur in any constraint");
            }
            if (!has(thread, idx)) {
                violate("iteration visits " + name + " but has_value returns false");
            }
            size_t back = lookup(name);
            if (back != idx) {
                violate("lookup of " + name + " gives index " + std::to_string(back) + " and not " +
                        std::to_string(idx));
            }
            auto val = rdl ? std::to_string(v.double_number) : std::to_string(v.int_number);
            if (!values.emplace(name, val).second) {
                violate("iteration visits variable " + name + " twice");
            }
            auto it = indices.emplace(name, idx).first;
            if (it->second != idx) {
                violate("the index of variable " + name + " changed");
            }
            c.count("values queried");
        }
        for (auto const &n : names) {
            size_t i = lookup(n);
            ever.insert(n);
            if (i == 0) {
                if (values.count(n) != 0) {
                    violate("variable " + n + " has a value but cannot be looked up");
                }
                c.count("unknown symbols looked up");
                continue;
            }
            if (mentioned.count(n) == 0) {
                violate("lookup finds " + n + ", which does not occur in any constraint");
            }
            clingo_symbol_t sym{};
            {
                Scope s;
                sym = clingodl_get_symbol(run.theory, i);
            }
            if (Clingo::Symbol{sym}.to_string() != n) {
                violate("lookup of " + n + " and retrieval of its symbol disagree: " + Clingo::Symbol{sym}.to_string());
            }
            auto it = indices.emplace(n, i).first;
            if (it->second != i) {
                violate("the index of variable " + n + " changed");
            }
            if (has(thread, i) != (values.count(n) != 0)) {
                violate("has_value of " + n + " and iteration disagree");
            }
            if (values.count(n) == 0) {
                c.count("variables without value");
            }
            for (unsigned t : {63U, 64U, 4000000000U}) {
                if (has(t, i)) {
                    violate("variable " + n + " has a value in a thread that does not exist");
                }
            }
        }
        return values;
    }

    void model(Clingo::Model &m, Model const &mm, std::vector<std::string> const &names,
               std::vector<TAtom> const *tatoms) {
        auto values = query(mm.thread, names);
        // values gathered independently
        std::map<std::string, std::string> other;
        for (auto const &[k, v] : mm.ival) {
            other.emplace(k, std::to_string(v));
        }
        for (auto const &[k, v] : mm.dval) {
            other.emplace(k, std::to_string(v));
        }
        if (other != values) {
            violate("values differ after the model was extended");
        }
        // the terms added to the model
        std::map<std::string, std::string> terms;
        for (auto const &s : m.symbols(Clingo::ShowType::Theory)) {
            if (!s.match("dl", 2)) {
                violate("unexpected term " + s.to_string() + " added to the model");
            }
            auto args = s.arguments();
            std::string val;
            if (rdl) {
                if (args[1].type() != Clingo::SymbolType::String) {
                    violate("value in " + s.to_string() + " is not a string");
                }
                val = args[1].string();
            } else {
                if (args[1].type() != Clingo::SymbolType::Number) {
                    violate("value in " + s.to_string() + " is not a number");
                }
                val = std::to_string(args[1].number());
            }
            if (!terms.emplace(args[0].to_string(), val).second) {
                violate("variable " + args[0].to_string() + " has two values in the model");
            }
        }
        if (terms != values) {
            std::ostringstream o;
            o << "dl/2 terms {";
            for (auto const &[k, v] : terms) {
                o << " " << k << "=" << v;
            }
            o << " } and queried values {";
            for (auto const &[k, v] : values) {
                o << " " << k << "=" << v;
            }
            violate(o.str() + " } differ");
        }
        if (tatoms != nullptr) {
            // constraints in force provide variables with values and the values satisfy them
            keyOf(mm.atoms, mm.ival, *tatoms, names);
        }
        c.count("models");
    }
};

} // namespace

CHECK(C09) {
    auto &rng = c.rng;
    bool rdl = rng.chance(30);
    int threads = rng.chance(15) ? rng.range(2, 4) : 1;
    auto opts = randomDlOpts(rng, threads);
    if (rdl) {
        opts.emplace_back("rdl", "yes");
    }
    auto args = randomClaspArgs(rng, false, threads > 1);
    args.push_back(rng.chance(50) ? "0" : std::to_string(rng.range(1, 5)));
    args.emplace_back("--warn=none");
    if (threads > 1) {
        args.push_back("-t" + std::to_string(threads) + (rng.chance(50) ? ",split" : ""));
    }
    c.log << "% options: " << optsStr(opts) << "\n% arguments: " << join(args) << "\n";
    DLRun run{opts, args};
    run.solveMode = rng.pick({0, 1, 2});
    GenOpt go;
    go.maxVars = 6;
    go.body = !rdl;
    go.scale = rdl ? rng.pick({1, 3}) : 0;
    go.maxExternals = 2;
    Session s{c, run, go, false};
    Values vals{run, c, rdl, {}, {}, {}};
    int steps = rng.pick({1, 1, 2, 3});
    u64 total = 0;
    for (int i = 0; i < steps; ++i) {
        s.step();
        vals.learn();
        s.shuffleExternals();
        int solves = rng.pick({1, 1, 2});
        for (int j = 0; j < solves; ++j) {
            s.pickAssumptions();
            auto names = s.inst.vars;
            for (auto const &n : {"nosuch", "z9(1)", "\"str\"", "-a", "-x(1)", "a(1)", "17", "(1,)", "dl(a,1)"}) {
                if (std::find(names.begin(), names.end(), n) == names.end()) {
                    names.emplace_back(n);
                }
            }
            auto out = s.solve([&](Clingo::Model &m, Model &mm) {
                try {
                    vals.model(m, mm, names, rdl ? nullptr : &s.inst.atoms);
                    ++total;
                    return true;
                } catch (Violation const &) {
                    if (run.solveMode == 1) {
                        throw;
                    }
                    // no exceptions through the solver thread
                    run.messages.emplace_back(std::string("VIOLATION ") + [] {
                        try {
                            throw;
                        } catch (std::exception const &e) {
                            return std::string(e.what());
                        }
                    }());
                    return false;
                }
            });
            for (auto const &msg : run.messages) {
                if (msg.rfind("VIOLATION ", 0) == 0) {
                    violate(msg.substr(10));
                }
            }
            if (out.models.size() > 400) {
                c.count("many models");
            }
            // between solve calls
            if (rng.chance(70)) {
                for (int t = 0; t < threads; ++t) {
                    vals.query(t, names);
                    c.count("queries between solve calls");
                }
            }
        }
    }
    c.count(rdl ? "real mode" : "integer mode");
    if (total > 0) {
        c.nontrivial(c.log.str());
    }
}

} // namespace M
