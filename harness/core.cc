// Basic data structures: constraints, instances, generator, reference enumerator.
#include "dlmon.hh"

#include <algorithm>

#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define MON_TSAN
#endif
#endif

#ifdef MON_TSAN
extern "C" void __tsan_on_report(void *report);
extern "C" void __tsan_on_report(void *report) {
    static_cast<void>(report);
    ++M::races;
}
#endif

namespace M {

std::atomic<u64> races{0};

u64 hashStr(std::string const &s, u64 h) {
    for (unsigned char c : s) {
        h = (h ^ c) * 1099511628211ULL;
    }
    h ^= h >> 32;
    return h;
}

void violate(std::string const &msg) { throw Violation(msg); }

std::string join(std::vector<std::string> const &v, char const *sep) {
    std::string r;
    for (auto const &x : v) {
        if (!r.empty()) {
            r += sep;
        }
        r += x;
    }
    return r;
}

Rel flip(Rel r) {
    switch (r) {
        case Rel::LE: return Rel::GE;
        case Rel::LT: return Rel::GT;
        case Rel::GE: return Rel::LE;
        case Rel::GT: return Rel::LT;
        default: return r;
    }
}

Rel negRel(Rel r) {
    switch (r) {
        case Rel::LE: return Rel::GT;
        case Rel::LT: return Rel::GE;
        case Rel::GE: return Rel::LT;
        case Rel::GT: return Rel::LE;
        case Rel::EQ: return Rel::NE;
        default: return Rel::EQ;
    }
}

char const *relStr(Rel r) {
    switch (r) {
        case Rel::LE: return "<=";
        case Rel::LT: return "<";
        case Rel::GE: return ">=";
        case Rel::GT: return ">";
        case Rel::EQ: return "=";
        default: return "!=";
    }
}

bool evalRel(Rel r, i64 a, i64 b) {
    switch (r) {
        case Rel::LE: return a <= b;
        case Rel::LT: return a < b;
        case Rel::GE: return a >= b;
        case Rel::GT: return a > b;
        case Rel::EQ: return a == b;
        default: return a != b;
    }
}

std::vector<int> DiffSys::conflict() const {
    // val(u) <= val(v) + w
    std::vector<i64> d(n, 0);
    std::vector<int> pred(n, -1);
    int last = -1;
    for (int round = 0; round <= n; ++round) {
        last = -1;
        for (int i = 0; i < static_cast<int>(cons.size()); ++i) {
            auto const &c = cons[i];
            if (d[c.v] + c.w < d[c.u]) {
                d[c.u] = d[c.v] + c.w;
                pred[c.u] = i;
                last = c.u;
            }
        }
        if (last < 0) {
            return {};
        }
    }
    for (int i = 0; i < n; ++i) {
        last = cons[pred[last]].v;
    }
    std::vector<int> res;
    int x = last;
    do {
        res.push_back(pred[x]);
        x = cons[pred[x]].v;
    } while (x != last);
    return res;
}

std::vector<i64> DiffSys::closure() const {
    std::vector<i64> d(static_cast<size_t>(n) * n, INF);
    for (int i = 0; i < n; ++i) {
        d[i * n + i] = 0;
    }
    for (auto const &c : cons) {
        auto &x = d[c.u * n + c.v];
        x = std::min(x, c.w);
    }
    for (int k = 0; k < n; ++k) {
        for (int i = 0; i < n; ++i) {
            if (d[i * n + k] >= INF) {
                continue;
            }
            for (int j = 0; j < n; ++j) {
                if (d[k * n + j] < INF && d[i * n + k] + d[k * n + j] < d[i * n + j]) {
                    d[i * n + j] = d[i * n + k] + d[k * n + j];
                }
            }
        }
    }
    return d;
}

std::optional<i64> DiffSys::lowest(int x) const {
    if (x >= n) {
        return std::nullopt;
    }
    auto d = closure();
    auto v = d[0 * n + x];
    if (v >= INF) {
        return std::nullopt;
    }
    return -v;
}

void addRel(DiffSys &sys, Rel r, int u, int v, i64 k) {
    switch (r) {
        case Rel::LE: sys.add(u, v, k); break;
        case Rel::LT: sys.add(u, v, k - 1); break;
        case Rel::GE: sys.add(v, u, -k); break;
        case Rel::GT: sys.add(v, u, -k - 1); break;
        case Rel::EQ:
            sys.add(u, v, k);
            sys.add(v, u, -k);
            break;
        default: throw std::logic_error("addRel");
    }
}

// {{{ generator

std::vector<std::string> varNames(Rng &rng, int n, bool nested) {
    static std::vector<std::string> const simple{"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l"};
    static std::vector<std::string> const fancy{"x(1)",    "x(2)",  "x(-1)",    "t(1,a)",     "t(a,1)", "n(m(1))",
                                                "\"s p\"", "(1,2)", "p(\"q\")", "p((1,))", "v_1",    "vV",
                                                "x(1,2)",  "_z",    "f(0)",     "f(10)"};
    std::vector<std::string> pool = simple;
    if (nested && rng.chance(50)) {
        pool = fancy;
        pool.insert(pool.end(), simple.begin(), simple.end());
    }
    if (nested && rng.chance(50)) {
        rng.shuffle(pool);
    }
    std::vector<std::string> res;
    for (int i = 0; i < n; ++i) {
        res.push_back(i < static_cast<int>(pool.size()) ? pool[i] : "y(" + std::to_string(i) + ")");
    }
    return res;
}

static std::string num(i64 k) { return k < 0 ? "(-" + std::to_string(-k) + ")" : std::to_string(k); }

std::string renderAtom(Rng &rng, TAtom const &a, std::vector<std::string> const &vars, bool notation) {
    std::string u = a.u == 0 ? "0" : vars[a.u - 1];
    std::string v = a.v == 0 ? "0" : vars[a.v - 1];
    auto r = relStr(a.rel);
    auto f = relStr(flip(a.rel));
    int form = notation ? rng.range(0, 9) : 0;
    i64 c = rng.range(-3, 3);
    std::string lhs;
    std::string rhs;
    switch (form) {
        case 1:
            lhs = "- " + v + " + " + u;
            rhs = num(a.k);
            break;
        case 2:
            lhs = u;
            rhs = v + " + " + num(a.k);
            break;
        case 3:
            lhs = u + " - " + num(a.k);
            rhs = v;
            break;
        case 4:
            lhs = v + " - " + u;
            rhs = num(-a.k);
            r = f;
            break;
        case 5:
            lhs = "2*" + u + " - " + v + " - " + u;
            rhs = num(a.k);
            break;
        case 6:
            lhs = u + " - " + v + " + " + num(c);
            rhs = num(a.k + c);
            break;
        case 7:
            lhs = num(a.k);
            rhs = u + " - " + v;
            r = f;
            break;
        case 8:
            lhs = "-1*" + v + " + " + u + " + 0*" + v;
            rhs = num(a.k);
            break;
        default:
            lhs = (a.v == 0 && form == 9 ? u : u + " - " + v);
            rhs = num(a.k);
            break;
    }
    return "&diff { " + lhs + " } " + r + " " + rhs;
}

Inst generate(Rng &rng, GenOpt const &opt) {
    Inst inst;
    inst.base = opt.base;
    int nv = opt.vars.empty() ? rng.range(opt.minVars, opt.maxVars) : static_cast<int>(opt.vars.size());
    inst.vars = opt.vars.empty() ? varNames(rng, nv, opt.nestedNames) : opt.vars;
    std::string pre = opt.step >= 0 ? std::to_string(opt.step) + "," : "";
    int groups = opt.groups > 0 ? opt.groups : rng.pick({1, 1, 1, 2, 3});
    groups = std::min(groups, nv);
    int nb = opt.body ? rng.range(0, opt.maxBody) : 0;
    int nh = rng.range(nb == 0 ? 1 : 0, opt.maxHead);
    i64 scale = opt.scale;
    if (scale == 0) {
        scale = rng.pick({1, 1, 1, 1, 3, 1000, 1000000});
    }
    int spread = rng.pick({1, 2, 3, 4});
    auto mk = [&](bool body) {
        TAtom a;
        a.body = body;
        int g = rng.range(0, groups - 1);
        std::vector<int> members;
        for (int i = 1; i <= nv; ++i) {
            if (i % groups == g) {
                members.push_back(i);
            }
        }
        a.u = rng.pick(members);
        a.v = rng.pick(members);
        if (a.u == a.v && !rng.chance(8)) {
            // pick another partner
            if (members.size() > 1 && rng.chance(70)) {
                while (a.u == a.v) {
                    a.v = rng.pick(members);
                }
            } else {
                a.v = 0;
            }
        } else if (rng.chance(30)) {
            (rng.chance(50) ? a.u : a.v) = 0;
        }
        if (opt.disj && rng.chance(30)) {
            a.rel = rng.chance(50) ? Rel::EQ : Rel::NE;
        } else {
            a.rel = rng.pick({Rel::LE, Rel::LE, Rel::LT, Rel::GE, Rel::GT});
        }
        a.k = rng.range(-spread, spread) * scale + (scale > 1 && rng.chance(30) ? rng.range(-1, 1) : 0);
        a.text = renderAtom(rng, a, inst.vars, opt.notation);
        return a;
    };
    for (int i = 0; i < nb; ++i) {
        inst.atoms.push_back(mk(true));
    }
    for (int i = 0; i < nh; ++i) {
        inst.atoms.push_back(mk(false));
    }
    int nc = rng.range(nh > 0 ? 1 : 0, opt.maxChoice);
    for (int i = 0; i < nc; ++i) {
        inst.choices.push_back("c(" + pre + std::to_string(i) + ")");
    }
    for (int i = rng.range(0, opt.maxExternals); i > 0; --i) {
        inst.externals.push_back("e(" + pre + std::to_string(i) + ")");
    }
    auto cand = inst.choices;
    cand.insert(cand.end(), inst.externals.begin(), inst.externals.end());
    for (auto const &a : opt.bodyAtoms) {
        if (rng.chance(60)) {
            cand.push_back(a);
        }
    }
    nc = static_cast<int>(cand.size());
    int nr = rng.range(0, opt.maxRules);
    std::vector<std::string> derived;
    for (int i = 0; i < nr; ++i) {
        derived.push_back("r(" + pre + std::to_string(rng.range(0, 2)) + ")");
    }
    auto mkBody = [&](int maxLen) {
        std::vector<BLit> body;
        int len = rng.range(0, maxLen);
        for (int j = 0; j < len; ++j) {
            BLit l;
            int x = rng.range(0, 99);
            if (x < 25 && nb > 0) {
                l.tatom = rng.range(0, nb - 1);
                l.direct = rng.chance(50);
            } else if (x < 45 && !derived.empty()) {
                l.atom = rng.pick(derived);
            } else if (nc > 0) {
                l.atom = rng.pick(cand);
            } else if (nb > 0) {
                l.tatom = rng.range(0, nb - 1);
                l.direct = rng.chance(50);
            } else {
                continue;
            }
            l.neg = opt.nots && rng.chance(35);
            body.push_back(l);
        }
        return body;
    };
    for (int i = 0; i < nr; ++i) {
        Rule r;
        int x = rng.range(0, 99);
        if (x < 75) {
            r.head = derived[i];
        }
        r.body = mkBody(3);
        if (r.head.empty() && r.body.size() < 2) {
            continue; // no trivially false constraints
        }
        inst.rules.push_back(r);
    }
    for (int i = nb; i < nb + nh; ++i) {
        int nrules = rng.chance(20) ? 2 : 1;
        for (int j = 0; j < nrules; ++j) {
            Rule r;
            r.htatom = i;
            if (!rng.chance(opt.bodyFacts)) {
                r.body = mkBody(2);
                if (r.body.empty() && nc > 0) {
                    BLit l;
                    l.atom = rng.pick(cand);
                    r.body.push_back(l);
                }
            }
            inst.rules.push_back(r);
        }
    }
    return inst;
}

static std::string bodyStr(Inst const &inst, std::vector<BLit> const &body, bool dl) {
    std::string s;
    for (auto const &l : body) {
        if (!s.empty()) {
            s += ", ";
        }
        if (l.neg) {
            s += "not ";
        }
        if (l.tatom >= 0) {
            s += dl && l.direct ? inst.atoms[l.tatom].text : "bb(" + std::to_string(inst.base + l.tatom) + ")";
        } else {
            s += l.atom;
        }
    }
    return s;
}

static std::string ruleStr(std::string const &head, std::string const &body) {
    if (body.empty()) {
        return head.empty() ? ":- #true.\n" : head + ".\n";
    }
    return head + " :- " + body + ".\n";
}

std::string Inst::dl() const {
    std::ostringstream o;
    if (!choices.empty()) {
        o << "{" << join(choices, ";") << "}.\n";
    }
    for (auto const &e : externals) {
        o << "#external " << e << ".\n";
    }
    for (size_t i = 0; i < atoms.size(); ++i) {
        if (atoms[i].body) {
            o << "bb(" << base + i << ") :- " << atoms[i].text << ".\n";
        }
    }
    for (auto const &r : rules) {
        auto b = bodyStr(*this, r.body, true);
        if (r.htatom >= 0) {
            o << ruleStr(atoms[r.htatom].text, b) << ruleStr("hh(" + std::to_string(base + r.htatom) + ")", b);
        } else {
            o << ruleStr(r.head, b);
        }
    }
    o << extra;
    return o.str();
}

std::string refAtomText(size_t i, TAtom const &a) {
    std::ostringstream o;
    if (a.body) {
        o << "{bb(" << i << ")}.\n";
        if (a.rel == Rel::EQ) {
            o << "1{__lt(" << i << ");__gt(" << i << ")}1 :- not bb(" << i << ").\n";
        } else if (a.rel == Rel::NE) {
            o << "1{__lt(" << i << ");__gt(" << i << ")}1 :- bb(" << i << ").\n";
        }
    } else if (a.rel == Rel::NE) {
        o << "1{__lt(" << i << ");__gt(" << i << ")}1 :- hh(" << i << ").\n";
    }
    return o.str();
}

std::string Inst::ref() const {
    std::ostringstream o;
    if (!choices.empty()) {
        o << "{" << join(choices, ";") << "}.\n";
    }
    for (auto const &e : externals) {
        o << "{" << e << "}.\n";
    }
    for (size_t i = 0; i < atoms.size(); ++i) {
        o << refAtomText(i, atoms[i]);
    }
    for (auto const &r : rules) {
        auto b = bodyStr(*this, r.body, false);
        o << ruleStr(r.htatom >= 0 ? "hh(" + std::to_string(base + r.htatom) + ")" : r.head, b);
    }
    o << extra;
    return o.str();
}

void Inst::append(Inst const &other) {
    if (vars.size() < other.vars.size()) {
        vars = other.vars;
    }
    int off = static_cast<int>(atoms.size());
    atoms.insert(atoms.end(), other.atoms.begin(), other.atoms.end());
    choices.insert(choices.end(), other.choices.begin(), other.choices.end());
    externals.insert(externals.end(), other.externals.begin(), other.externals.end());
    for (auto r : other.rules) {
        if (r.htatom >= 0) {
            r.htatom += off;
        }
        for (auto &l : r.body) {
            if (l.tatom >= 0) {
                l.tatom += off;
            }
        }
        rules.push_back(std::move(r));
    }
    extra += other.extra;
}

Inst generateJobs(Rng &rng, int jobs, int machines, bool strictBound) {
    Inst inst;
    std::vector<std::vector<int>> dur(jobs), order(jobs);
    auto var = [&](int j, int m) { return j * machines + m + 1; };
    for (int j = 0; j < jobs; ++j) {
        for (int m = 0; m < machines; ++m) {
            inst.vars.push_back("s(" + std::to_string(j) + "," + std::to_string(m) + ")");
            dur[j].push_back(rng.range(1, 9));
            order[j].push_back(m);
        }
        rng.shuffle(order[j]);
    }
    inst.vars.emplace_back("makespan");
    int ms = static_cast<int>(inst.vars.size());
    auto fact = [&](bool body, int u, int v, Rel r, i64 k, std::vector<BLit> b) {
        TAtom a{body, u, v, r, k, {}};
        a.text = renderAtom(rng, a, inst.vars, true);
        inst.atoms.push_back(a);
        if (!body) {
            Rule rule;
            rule.htatom = static_cast<int>(inst.atoms.size()) - 1;
            rule.body = std::move(b);
            inst.rules.push_back(rule);
        }
    };
    i64 total = 0;
    i64 longest = 0;
    for (int j = 0; j < jobs; ++j) {
        i64 sum = 0;
        for (int i = 0; i < machines; ++i) {
            int m = order[j][i];
            sum += dur[j][m];
            if (i == 0) {
                fact(false, 0, var(j, m), Rel::LE, 0, {});
            } else {
                fact(false, var(j, m), var(j, order[j][i - 1]), Rel::GE, dur[j][order[j][i - 1]], {});
            }
            if (i + 1 == machines) {
                fact(false, ms, var(j, m), Rel::GE, dur[j][m], {});
            }
        }
        total += sum;
        longest = std::max(longest, sum);
    }
    int c = 0;
    for (int m = 0; m < machines; ++m) {
        for (int j = 0; j < jobs; ++j) {
            for (int k = j + 1; k < jobs; ++k) {
                auto name = "c(" + std::to_string(c++) + ")";
                inst.choices.push_back(name);
                BLit l;
                l.atom = name;
                fact(false, var(k, m), var(j, m), Rel::GE, dur[j][m], {l});
                l.neg = true;
                fact(false, var(j, m), var(k, m), Rel::GE, dur[k][m], {l});
            }
        }
    }
    i64 bound = strictBound ? longest + rng.range(0, 8) : total;
    fact(false, ms, 0, Rel::LE, bound, {});
    // some body constraints about the schedule
    for (int i = rng.range(0, 4); i > 0; --i) {
        int u = rng.range(1, ms);
        int v = rng.range(0, ms);
        if (u != v) {
            fact(true, u, v, rng.pick({Rel::LE, Rel::LT, Rel::EQ, Rel::GE, Rel::NE}), rng.range(0, 12), {});
        }
    }
    return inst;
}

// }}}
// {{{ reference

bool reservedAtom(std::string const &s) { return s.rfind("__", 0) == 0; }

namespace {

//! Adds the constraints in force for atom i given its status; returns the region character.
char inForce(DiffSys &sys, TAtom const &a, bool active, bool lt, bool gt) {
    auto side = [&](char c) {
        addRel(sys, c == '<' ? Rel::LT : Rel::GT, a.u, a.v, a.k);
        return c;
    };
    if (a.body) {
        if (a.rel == Rel::EQ || a.rel == Rel::NE) {
            bool eq = (a.rel == Rel::EQ) == active;
            if (eq) {
                addRel(sys, Rel::EQ, a.u, a.v, a.k);
                return '=';
            }
            return lt ? side('<') : gt ? side('>') : '?';
        }
        addRel(sys, active ? a.rel : negRel(a.rel), a.u, a.v, a.k);
        return '.';
    }
    if (!active) {
        return '.';
    }
    if (a.rel == Rel::NE) {
        return lt ? side('<') : gt ? side('>') : '?';
    }
    addRel(sys, a.rel, a.u, a.v, a.k);
    return '.';
}

class RefProp : public Clingo::Propagator {
  public:
    explicit RefProp(std::vector<TAtom> const &atoms) : atoms_{atoms} {}
    void init(Clingo::PropagateInit &init) override {
        lits_.clear();
        auto syms = init.symbolic_atoms();
        auto lit = [&](char const *name, size_t i) -> int {
            auto it = syms.find(Clingo::Function(name, {Clingo::Number(static_cast<int>(i))}));
            if (it == syms.end()) {
                return 0;
            }
            return init.solver_literal(it->literal());
        };
        for (size_t i = 0; i < atoms_.size(); ++i) {
            lits_.push_back({lit(atoms_[i].body ? "bb" : "hh", i), lit("__lt", i), lit("__gt", i)});
        }
        init.set_check_mode(Clingo::PropagatorCheckMode::Total);
    }
    void check(Clingo::PropagateControl &ctl) override {
        auto ass = ctl.assignment();
        DiffSys sys;
        std::vector<std::vector<int>> reasons;
        for (size_t i = 0; i < atoms_.size(); ++i) {
            auto t = [&](int l) { return l != 0 && ass.is_true(l); };
            auto const &l = lits_[i];
            bool act = t(l[0]);
            bool lt = t(l[1]);
            bool gt = t(l[2]);
            auto before = sys.cons.size();
            inForce(sys, atoms_[i], act, lt, gt);
            std::vector<int> rs;
            if (l[0] != 0) {
                rs.push_back(act ? l[0] : -l[0]);
            }
            if (lt) {
                rs.push_back(l[1]);
            } else if (gt) {
                rs.push_back(l[2]);
            }
            while (reasons.size() < sys.cons.size()) {
                reasons.push_back(rs);
            }
            static_cast<void>(before);
        }
        auto cycle = sys.conflict();
        if (!cycle.empty()) {
            std::vector<int> clause;
            for (auto i : cycle) {
                for (auto r : reasons[i]) {
                    if (std::find(clause.begin(), clause.end(), -r) == clause.end()) {
                        clause.push_back(-r);
                    }
                }
            }
            ctl.add_clause(clause) && ctl.propagate();
        }
    }

  private:
    std::vector<TAtom> const &atoms_;
    std::vector<std::array<int, 3>> lits_;
};

std::vector<std::string> symbolsOf(Clingo::Model const &m) {
    std::vector<std::string> v;
    for (auto const &s : m.symbols(Clingo::ShowType::Atoms)) {
        v.push_back(s.to_string());
    }
    std::sort(v.begin(), v.end());
    return v;
}

} // namespace

static std::string makeKey(std::vector<std::string> const &atoms, std::string const &regions) {
    std::string k;
    for (auto const &a : atoms) {
        if (!reservedAtom(a)) {
            k += a;
            k += ' ';
        }
    }
    return k + "| " + regions;
}

RefResult referenceText(std::string const &text, std::vector<TAtom> const &atoms, RefOpt const &opt) {
    OutScope os;
    RefResult res;
    std::vector<std::string> args = opt.args;
    args.emplace_back("0");
    args.emplace_back("--warn=none");
    std::vector<char const *> cargs;
    for (auto const &a : args) {
        cargs.push_back(a.c_str());
    }
    Clingo::Control ctl{{cargs.data(), cargs.size()}};
    ctl.add("base", {}, text.c_str());
    ctl.ground({{"base", {}}});
    RefProp prop{atoms};
    if (opt.theory) {
        ctl.register_propagator(prop);
    }
    std::vector<Clingo::SymbolicLiteral> ass;
    for (auto const &s : opt.forbidden) {
        ass.emplace_back(Clingo::parse_term(s.c_str()), false);
    }
    for (auto const &s : opt.required) {
        ass.emplace_back(Clingo::parse_term(s.c_str()), true);
    }
    auto handle = ctl.solve(Clingo::SymbolicLiteralSpan{ass.data(), ass.size()});
    i64 n = 0;
    for (auto const &m : handle) {
        RefAnswer a;
        a.atoms = symbolsOf(m);
        std::set<std::string> set(a.atoms.begin(), a.atoms.end());
        std::string regions;
        for (size_t i = 0; i < atoms.size(); ++i) {
            auto has = [&](char const *p) { return set.count(std::string(p) + "(" + std::to_string(i) + ")") != 0; };
            regions += inForce(a.sys, atoms[i], has(atoms[i].body ? "bb" : "hh"), has("__lt"), has("__gt"));
        }
        a.key = makeKey(a.atoms, regions);
        res.keys[a.key]++;
        res.answers.push_back(std::move(a));
        if (++n >= opt.limit) {
            res.complete = false;
            break;
        }
    }
    return res;
}

RefResult reference(Inst const &inst, RefOpt const &opt) { return referenceText(inst.ref(), inst.atoms, opt); }

std::string keyOf(std::vector<std::string> const &atoms, std::map<std::string, i64> const &val,
                  std::vector<TAtom> const &tatoms, std::vector<std::string> const &vars) {
    std::set<std::string> set(atoms.begin(), atoms.end());
    std::string regions;
    for (size_t i = 0; i < tatoms.size(); ++i) {
        auto const &a = tatoms[i];
        bool truth = set.count((a.body ? "bb(" : "hh(") + std::to_string(i) + ")") != 0;
        if (!a.body && !truth) {
            regions += '.';
            continue;
        }
        auto get = [&](int x) -> i64 {
            if (x == 0 || a.u == a.v) {
                return 0;
            }
            auto it = val.find(vars[x - 1]);
            if (it == val.end()) {
                violate("variable " + vars[x - 1] + " of constraint in force '" + a.text + "' has no value in answer {" +
                        join(atoms) + "}");
            }
            return it->second;
        };
        i64 diff = get(a.u) - get(a.v);
        bool holds = evalRel(a.rel, diff, a.k);
        if (a.body ? holds != truth : !holds) {
            std::ostringstream o;
            o << (a.body ? "body" : "head") << " constraint '" << a.text << "' is " << (truth ? "true" : "false")
              << " in answer {" << join(atoms) << "} but the difference is " << diff << " in assignment {";
            for (auto const &[k, v] : val) {
                o << " " << k << "=" << v;
            }
            o << " }";
            violate(o.str());
        }
        if ((a.body && (a.rel == Rel::EQ || a.rel == Rel::NE)) || (!a.body && a.rel == Rel::NE)) {
            regions += diff < a.k ? '<' : diff > a.k ? '>' : '=';
        } else {
            regions += '.';
        }
    }
    return makeKey(atoms, regions);
}

// }}}

} // namespace M
