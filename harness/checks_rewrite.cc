// C11: rewriting preserves programs.
#include "dlmon.hh"

#include <algorithm>

namespace M {

namespace {

std::vector<Clingo::AST::Node> parseAst(std::string const &text) {
    std::vector<Clingo::AST::Node> res;
    Clingo::AST::parse_string(
        text.c_str(), [&](Clingo::AST::Node const &n) { res.push_back(n); },
        [](Clingo::WarningCode, char const *) {}, 100);
    return res;
}

std::string str(Clingo::AST::Node const &n) { return n.to_string(); }

std::vector<Clingo::AST::Node> rewrite(clingodl_theory_t *theory, Clingo::AST::Node const &n) {
    std::vector<Clingo::AST::Node> res;
    auto add = [](clingo_ast_t *ast, void *d) -> bool {
        OutScope os;
        clingo_ast_acquire(ast);
        static_cast<std::vector<Clingo::AST::Node> *>(d)->emplace_back(ast);
        return true;
    };
    bool ret = false;
    {
        Scope s;
        ret = clingodl_rewrite_ast(theory, n.to_c(), add, &res);
    }
    Clingo::Detail::handle_error(ret);
    return res;
}

struct Theory {
    clingodl_theory_t *theory{nullptr};
    explicit Theory(bool shift) {
        Clingo::Detail::handle_error(clingodl_create(&theory));
        if (shift) {
            Clingo::Detail::handle_error(clingodl_configure(theory, "shift-constraints", "yes"));
        }
    }
    ~Theory() { clingodl_destroy(theory); }
};

//! Replace the names of difference constraints in the text of a statement depending on where they occur.
std::string rename(std::string const &s, int &found) {
    std::string r;
    bool str = false;
    for (size_t i = 0; i < s.size(); ++i) {
        char ch = s[i];
        if (str) {
            if (ch == '\\') {
                r += ch;
                ch = s[++i];
            } else if (ch == '"') {
                str = false;
            }
            r += ch;
            continue;
        }
        if (ch == '"') {
            str = true;
        }
        if (s.compare(i, 5, "&diff") == 0) {
            char nxt = i + 5 < s.size() ? s[i + 5] : '\0';
            if (!std::isalnum(static_cast<unsigned char>(nxt)) && nxt != '_' && nxt != '\'' && nxt != '(') {
                r += i == 0 ? "&__diff_h" : "&__diff_b";
                i += 4;
                ++found;
                continue;
            }
        }
        r += ch;
    }
    return r;
}

// {{{ random statements without difference constraints

std::string term(Rng &rng, int d, bool pool) {
    if (d <= 0 || rng.chance(40)) {
        return rng.pick<std::string>({"X", "Y", "1", "2", "a", "b", "\"s; &diff { a }\"", "#sup", "-3", "(1,2)", "n"});
    }
    auto s = [&] { return term(rng, d - 1, pool); };
    switch (rng.range(0, 8)) {
        case 0: return "f(" + s() + ")";
        case 1: return "g(" + s() + "," + s() + ")";
        case 2: return "(" + s() + "+" + s() + ")";
        case 3: return "|" + s() + "|";
        case 4: return "(" + s() + "**" + s() + ")";
        case 5: return "@h(" + s() + ")";
        case 6: return pool && rng.chance(40) ? "f(" + s() + ";" + s() + ")" : "(" + s() + ",)";
        case 7: return pool && rng.chance(40) ? "(" + s() + ";" + s() + ")" : "(" + s() + "\\2)";
        default: return "(" + s() + ".." + s() + ")";
    }
}

std::string lit(Rng &rng, int d, bool pool) {
    auto sign = rng.pick<std::string>({"", "", "not ", "not not "});
    switch (rng.range(0, 5)) {
        case 0: return sign + "#true";
        case 1: return term(rng, d, pool) + rng.pick<std::string>({"<", "=", "!=", ">="}) + term(rng, d, pool);
        case 2: return sign + "-p(" + term(rng, d, pool) + ")";
        default: return sign + rng.pick<std::string>({"p", "q", "diff"}) + "(" + term(rng, d, pool) + ")";
    }
}

std::string bodyLit(Rng &rng, int d, bool pool) {
    auto l = [&] { return lit(rng, d, pool); };
    auto t = [&] { return term(rng, d, pool); };
    switch (rng.range(0, 9)) {
        case 0: return "#sum { " + t() + "," + t() + " : " + l() + ", " + l() + " } >= " + t();
        case 1: return t() + " <= #count { " + t() + " : " + l() + "; " + t() + " : " + l() + " }";
        case 2: return "not 1 { " + lit(rng, d, pool) + " : " + l() + " } 2";
        case 3: return "p(" + t() + ") : " + l() + ", " + l();
        case 4: return "&sum { " + rng.pick<std::string>({"x", "f(X)", "1,a"}) + " : " + l() + " } >= 3";
        case 5: return "not &diffx { x - y } <= 3";
        case 6: return rng.pick<std::string>({"&diff_b { x - y } <= 3", "&__diff_x { x } <= 1", "&xdiff { x }"});
        default: return l();
    }
}

std::string statement(Rng &rng, bool pool) {
    int d = rng.range(0, 2);
    auto l = [&] { return lit(rng, d, pool); };
    auto t = [&] { return term(rng, d, pool); };
    auto bd = [&] {
        std::string b;
        for (int i = rng.range(0, 3); i > 0; --i) {
            b += (b.empty() ? "" : "; ") + bodyLit(rng, d, pool);
        }
        return b;
    };
    auto rule = [&](std::string const &h) {
        auto b = bd();
        return b.empty() ? h + "." : h + " :- " + b + ".";
    };
    switch (rng.range(0, 24)) {
        case 0: return "#const n = " + rng.pick<std::string>({"1", "f(a)", "2*3"}) + ".";
        case 1: return "#show p/1.";
        case 2: return "#show -p/2.";
        case 3: {
            auto b = bd();
            return "#show " + t() + (b.empty() ? "." : " : " + b + ".");
        }
        case 4: return "#defined q/3.";
        case 5: return "#external p(" + t() + ") : " + bd() + ". [free]";
        case 6: return "#edge (" + t() + "," + t() + ") : " + bd() + ".";
        case 7: return "#heuristic p(" + t() + ") : " + bd() + ". [1@" + t() + ",level]";
        case 8: return ":~ " + bd() + ". [" + t() + "@1," + t() + "]";
        case 9: return "#minimize { " + t() + "@2 : " + l() + " }.";
        case 10: return "#project p/1.";
        case 11: return "#project p(" + t() + ") : " + bd() + ".";
        case 12: return "#program base(n,m).";
        case 13: return "#theory t { x { - : 1, unary; + : 2, binary, left }; &sum/0 : x, {<=,>=}, x, any }.";
        case 14: return "#script (lua) print(1) #end.";
        case 15: return rule("{ p(" + t() + ") : " + l() + "; q(" + t() + ") }");
        case 16: return rule("p(" + t() + ") : " + l() + "; q(1)");
        case 17: return rule("1 #sum { " + t() + " : p(" + t() + ") : " + l() + " } 3");
        case 18: return rule("&sum { " + rng.pick<std::string>({"x", "f(1)"}) + " : " + l() + " } <= 3");
        case 19: return rule("&diffx { x - y } <= 3");
        case 20: return rule("#false");
        case 21: return rule("not not #false");
        case 22: return rule("not p(" + t() + ")");
        case 23: return "% comment\n#defined p/1.";
        default: return rule(lit(rng, d, pool));
    }
}

// }}}
// {{{ statements with difference constraints

std::string diffAtom(Rng &rng) {
    auto t = [&] {
        return rng.pick<std::string>({"a", "b", "x(X)", "f(Y,1)", "\"s\"", "(X,Y)", "3*a", "g(\"&diff { a } <= 1\")"});
    };
    return "&diff { " + t() + " - " + t() + " } " + rng.pick<std::string>({"<=", "<", ">=", ">", "=", "!="}) + " " +
           rng.pick<std::string>({"3", "X", "-X", "2*X+1", "y"});
}

std::string diffStatement(Rng &rng, bool pool, int &n) {
    std::vector<std::string> body;
    n = 0;
    std::string head;
    int h = rng.range(0, 5);
    if (h <= 2) {
        head = diffAtom(rng);
        ++n;
    } else if (h == 3) {
        head = "p(" + term(rng, 1, pool) + ")";
    } else if (h == 4) {
        head = "{ p(X); q(Y) : r(Y) }";
    }
    for (int i = rng.range(n == 0 ? 1 : 0, 3); i > 0; --i) {
        body.push_back(rng.pick<std::string>({"", "not ", "not not "}) + diffAtom(rng));
        ++n;
    }
    for (int i = rng.range(0, 2); i > 0; --i) {
        body.push_back(bodyLit(rng, 1, pool));
    }
    rng.shuffle(body);
    return head + (body.empty() ? "." : " :- " + join(body, "; ") + ".");
}

// }}}

} // namespace

static void checkStatements(Case &c) {
    auto &rng = c.rng;
    bool shift = rng.chance(50);
    Theory th{shift};
    int n = rng.range(3, 12);
    std::vector<std::string> seen;
    for (int i = 0; i < n; ++i) {
        bool pool = rng.chance(50);
        bool withDiff = rng.chance(50);
        int nDiff = 0;
        auto text = withDiff ? diffStatement(rng, pool, nDiff) : statement(rng, pool);
        if (pool && std::count(text.begin(), text.end(), ';') > 9) {
            continue; // the number of instances is exponential
        }
        c.log << text << "\n";
        std::vector<Clingo::AST::Node> asts;
        try {
            asts = parseAst(text);
        } catch (std::exception const &) {
            c.count("statements not accepted by the parser");
            continue;
        }
        for (auto const &ast : asts) {
            auto before = str(ast);
            auto copy = ast.deep_copy();
            auto unpooled = ast.unpool();
            int found = 0;
            auto renamed = rename(before, found);
            // integrity constraints with shifting are compared semantically
            bool constraint = ast.type() == Clingo::AST::Type::Rule && before.rfind("&", 0) != 0 &&
                              (before.rfind("#false", 0) == 0 || before.rfind("not #true", 0) == 0 ||
                               before.rfind("not not #false", 0) == 0);
            auto out = rewrite(th.theory, ast);
            if (str(ast) != before || ast != copy) {
                violate("rewriting modified its input: " + before + " became " + str(ast));
            }
            if (out.size() != unpooled.size()) {
                violate("rewriting '" + before + "' gives " + std::to_string(out.size()) + " statements instead of " +
                        std::to_string(unpooled.size()));
            }
            for (size_t j = 0; j < out.size(); ++j) {
                auto in = str(unpooled[j]);
                int f = 0;
                auto expect = rename(in, f);
                auto got = str(out[j]);
                if (shift && constraint && f > 0) {
                    // exactly one constraint moves to the head
                    auto pos = got.find("&__diff_h");
                    if (pos != 0 || got.find("&__diff_h", 1) != std::string::npos) {
                        violate("shifting '" + in + "' gives '" + got + "'");
                    }
                    int g = 0;
                    for (size_t p = 0; (p = got.find("&__diff_b", p)) != std::string::npos; ++p) {
                        ++g;
                    }
                    if (g != f - 1) {
                        violate("shifting '" + in + "' gives '" + got + "'");
                    }
                    c.count("constraints shifted");
                    continue;
                }
                if (got != expect) {
                    violate("rewriting '" + in + "' gives '" + got + "' instead of '" + expect + "'");
                }
                if (f == 0) {
                    if (out[j] != unpooled[j]) {
                        violate("rewriting changes statement '" + in + "' although it has no difference constraint");
                    }
                    c.count("statements without constraints");
                } else {
                    c.count("constraints rewritten", static_cast<u64>(f));
                }
            }
            c.count("statements");
            c.count("statements after expanding pools", out.size());
            c.tags->insert("statement type " + std::to_string(static_cast<int>(ast.type())));
            seen.push_back(before);
            // rewriting the same statement again gives the same result
            if (rng.chance(20)) {
                auto again = rewrite(th.theory, ast);
                bool same = again.size() == out.size();
                for (size_t j = 0; same && j < out.size(); ++j) {
                    same = again[j] == out[j];
                }
                if (!same) {
                    violate("rewriting the same statement twice gives different results: " + before);
                }
            }
        }
    }
    // errors in the callback are passed on
    if (rng.chance(20) && !seen.empty()) {
        auto ast = parseAst("p(1;2) :- q.").back();
        int calls = 0;
        auto add = [](clingo_ast_t *, void *d) -> bool {
            ++*static_cast<int *>(d);
            clingo_set_error(clingo_error_runtime, "stop here");
            return false;
        };
        bool ret = false;
        {
            Scope s;
            ret = clingodl_rewrite_ast(th.theory, ast.to_c(), add, &calls);
        }
        if (ret || calls != 1 || std::string(clingo_error_message() != nullptr ? clingo_error_message() : "") != "stop here") {
            violate("an error of the callback is not passed on (returned " + std::to_string(ret) + " after " +
                    std::to_string(calls) + " calls)");
        }
        c.count("callback errors passed on");
    }
    if (!seen.empty()) {
        c.nontrivial(join(seen, "\n"));
    }
}

//! Pools are expanded to the instances that grounding produces.
static void checkPools(Case &c) {
    auto &rng = c.rng;
    auto pl = [&] {
        switch (rng.range(0, 4)) {
            case 0: return std::string("(1;2)");
            case 1: return std::string("(a;1..2)");
            case 2: return std::string("(1;2;3)");
            case 3: return std::string("(X;1)");
            default: return std::string("X");
        }
    };
    auto p2 = [&] { return rng.pick<std::string>({"p(", "q("}) + pl() + ")"; };
    std::ostringstream text;
    text << "{ d(1..2) }.\n";
    for (int i = rng.range(1, 4); i > 0; --i) {
        auto dom = std::string("d(X)");
        switch (rng.range(0, 7)) {
            case 0: text << p2() << " :- " << dom << ".\n"; break;
            case 1: text << "r(X) :- " << dom << ", not " << p2() << ".\n"; break;
            case 2: text << "1 { " << p2() << "; s(X) } 2 :- " << dom << ".\n"; break;
            case 3: text << "t(X) :- " << dom << ", 1 <= #sum { " << pl() << ",X : " << p2() << " }.\n"; break;
            case 4: text << "u(X) :- " << dom << ", " << p2() << " : d(Y), Y=" << pl() << ".\n"; break;
            case 5: text << ":- " << dom << ", " << p2() << ", not s(X).\n"; break;
            case 6: text << p2() << " : d(" << pl() << ") :- " << dom << ".\n"; break;
            default: text << "#external " << p2() << " : " << dom << ".\n"; break;
        }
    }
    // constraints with pooled bodies
    bool diff = rng.chance(60);
    auto body = "d(X), w" + rng.pick<std::string>({"(X;3)", "(1;2)", "(X)"}) + "";
    if (diff) {
        text << "w(1..3).\n";
    }
    std::string d;
    if (diff) {
        d = "&diff { x(X) - y } <= X :- " + body + ".\n&diff { x(1) - y } >= 2 :- not d(1).\n&diff { x(2) - y } >= 5 :- d(2), d(1).\n";
    }
    c.log << text.str() << d;
    auto keys = [&](SolveOut const &o) {
        Keys k;
        for (auto const &m : o.models) {
            k[join(m.atoms)]++;
        }
        return k;
    };
    auto prog = text.str();
    // expected: plain grounding without rewriting, constraints over two chosen values are checked by hand
    RefOpt ro;
    ro.theory = false;
    Keys expected;
    RefResult ref;
    std::string plainErr;
    try {
        ref = referenceText(prog, {}, ro);
    } catch (std::exception const &e) {
        plainErr = e.what();
    }
    DLRun run{randomDlOpts(rng), {"0", "--warn=none"}};
    std::string err;
    SolveOut out;
    try {
        run.parse(prog + d);
        run.ground();
        out = run.solve();
    } catch (Violation const &) {
        throw;
    } catch (std::exception const &e) {
        err = e.what();
    }
    if (!plainErr.empty() || !err.empty()) {
        if (plainErr.empty() != err.empty()) {
            violate("plain grounding " + (plainErr.empty() ? "works" : "fails: " + plainErr) + " and rewriting " +
                    (err.empty() ? "works" : "fails: " + err));
        }
        return;
    }
    if (!ref.complete) {
        return;
    }
    for (auto const &a : ref.answers) {
        auto has = [&](char const *s) { return std::find(a.atoms.begin(), a.atoms.end(), s) != a.atoms.end(); };
        if (diff && has("d(1)") && has("d(2)")) {
            continue; // x(2)-y <= 2 and x(2)-y >= 5
        }
        expected[join(a.atoms)]++;
    }
    auto got = keys(out);
    compareKeys(expected, got, "program with pools");
    c.count("programs with pools");
    c.nontrivial(prog + d);
}

//! Shifting constraints preserves answers.
static void checkShift(Case &c) {
    auto &rng = c.rng;
    GenOpt go;
    go.bodyFacts = 10;
    auto inst = generate(rng, go);
    std::ostringstream o;
    std::vector<std::string> shifted;
    // print some head constraints as integrity constraints
    auto full = inst;
    auto heads = inst.rules;
    inst.rules.clear();
    for (auto const &r : heads) {
        if (r.htatom < 0 || !rng.chance(65)) {
            inst.rules.push_back(r);
            continue;
        }
        Rule hh = r;
        std::string body;
        std::vector<std::string> parts;
        for (auto const &l : r.body) {
            parts.push_back(std::string(l.neg ? "not " : "") +
                            (l.tatom >= 0 ? "bb(" + std::to_string(l.tatom) + ")" : l.atom));
        }
        auto a = full.atoms[r.htatom];
        std::string tl;
        switch (rng.range(0, 2)) {
            case 0: tl = "not " + a.text; break;
            default: {
                auto b = a;
                b.rel = negRel(a.rel);
                b.text = renderAtom(rng, b, full.vars, true);
                tl = (rng.chance(30) ? "not not " : "") + b.text;
            }
        }
        parts.push_back(tl);
        rng.shuffle(parts);
        auto head = rng.pick<std::string>({"", "", "#false", "not #true", "not not #false"});
        o << head << " :- " << join(parts, ", ") << ".\n";
        // the definition of the auxiliary atom
        parts.erase(std::find(parts.begin(), parts.end(), tl));
        o << "hh(" << r.htatom << ")" << (parts.empty() ? "" : " :- " + join(parts, ", ")) << ".\n";
    }
    if (rng.chance(40)) {
        // not an integrity constraint: must not be shifted
        o << rng.pick<std::string>({"#true", "not #false", "not not #true"}) << " :- &diff { " << full.vars[0] << " - "
          << full.vars[1] << " } " << rng.pick<std::string>({"<=", ">=", "=", "!="}) << " " << rng.range(-3, 3) << ".\n";
    }
    auto program = inst.dl() + o.str();
    auto opts = randomDlOpts(rng);
    bool shift = rng.chance(70);
    opts.emplace_back("shift-constraints", shift ? "yes" : "no");
    auto args = randomClaspArgs(rng);
    args.insert(args.end(), {"0", "--warn=none"});
    c.log << "% options: " << optsStr(opts) << "\n% arguments: " << join(args) << "\n" << program;
    RefOpt ro;
    ro.limit = 1500;
    auto ref = reference(full, ro);
    if (!ref.complete) {
        c.count("skipped (too many answers)");
        return;
    }
    DLRun run{opts, args};
    run.parse(program);
    run.ground();
    auto out = run.solve();
    auto keys = keysOf(out, full.atoms, full.vars);
    auto extra = o.str().find("#true :-") != std::string::npos || o.str().find("not #false :-") != std::string::npos;
    auto exp = ref.keys;
    if (!shift || extra) {
        for (auto &k : keys) {
            k.second = 1;
        }
        for (auto &k : exp) {
            k.second = 1;
        }
    }
    compareKeys(exp, keys, shift ? "shifted integrity constraints" : "integrity constraints");
    c.count(shift ? "programs with shifting" : "programs without shifting");
    c.count("answers", keys.size());
    if (!exp.empty()) {
        c.nontrivial(program);
    }
}

//! Names of theory atoms can be functions or symbolic terms.
static void checkSymbolic(Case &c) {
    auto &rng = c.rng;
    auto name = rng.pick<std::string>({"diff", "diff", "diff", "diffx", "sum", "dif"});
    auto arg = rng.chance(20);
    int n = 0;
    auto text = diffStatement(rng, false, n);
    bool shift = false;
    Theory th{shift};
    std::vector<Clingo::AST::Node> asts;
    try {
        asts = parseAst(text);
    } catch (std::exception const &) {
        return;
    }
    auto ast = asts.back();
    struct Replace {
        std::string name;
        bool arg;
        Clingo::AST::Node operator()(Clingo::AST::Node const &n) {
            using namespace Clingo::AST;
            if (n.type() == Type::TheoryAtom) {
                auto r = n.copy();
                auto loc = n.get<Clingo::Location>(Attribute::Location);
                auto t = n.get<Node>(Attribute::Term);
                if (std::string(t.to_string()) != "diff") {
                    return n;
                }
                std::vector<Clingo::Symbol> args;
                if (arg) {
                    args.push_back(Clingo::Number(1));
                }
                r.set(Attribute::Term, Node{Type::SymbolicTerm, loc, Clingo::Function(name.c_str(), args)});
                return r;
            }
            return n.transform_ast(*this);
        }
    };
    auto sym = ast.transform_ast(Replace{name, arg});
    c.log << "% name given as symbol " << name << (arg ? "(1)" : "") << "\n" << text << "\n";
    auto before = str(sym);
    auto copy = sym.deep_copy();
    auto out = rewrite(th.theory, sym);
    if (str(sym) != before || sym != copy) {
        violate("rewriting modified its input " + before);
    }
    if (out.size() != 1) {
        violate("one statement expected");
    }
    int f = 0;
    auto expect = name == "diff" && !arg ? rename(before, f) : before;
    if (str(out[0]) != expect) {
        violate("rewriting '" + before + "' gives '" + str(out[0]) + "' instead of '" + expect + "'");
    }
    c.count("symbolic names");
    c.nontrivial(before + name);
}

CHECK(C11) {
    OutScope os;
    switch (c.rng.range(0, 9)) {
        case 0:
        case 1:
        case 2:
        case 3: checkStatements(c); break;
        case 4: checkPools(c); break;
        case 5: checkSymbolic(c); break;
        default: checkShift(c); break;
    }
}

} // namespace M
