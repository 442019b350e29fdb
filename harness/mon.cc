// Independent understanding of ground theory atoms; online checks of clauses and fixpoints.
#include "dlmon.hh"

#include <algorithm>
#include <cmath>

namespace M {

namespace {

struct ParseError : std::runtime_error {
    using std::runtime_error::runtime_error;
};

struct Lin {
    std::map<std::string, i128> t;
    i128 c{0};
    bool isConst() const { return t.empty(); }
};

struct TermParser {
    clingo_theory_atoms_t const *a;
    bool overflow{false};
    std::set<std::string> mentioned;

    i128 chk(i128 x) {
        if (x > INT32_MAX || x <= static_cast<i128>(INT32_MIN)) {
            overflow = true;
        }
        i128 lim = static_cast<i128>(1) << 100;
        if (x > lim || x < -lim) {
            throw ParseError("number too large");
        }
        return x;
    }
    int type(clingo_id_t t) {
        clingo_theory_term_type_t r{};
        if (!clingo_theory_atoms_term_type(a, t, &r)) {
            throw std::logic_error("theory api");
        }
        return r;
    }
    std::string name(clingo_id_t t) {
        char const *n{};
        if (!clingo_theory_atoms_term_name(a, t, &n)) {
            throw std::logic_error("theory api");
        }
        return n;
    }
    std::vector<clingo_id_t> args(clingo_id_t t) {
        clingo_id_t const *p{};
        size_t n{};
        if (!clingo_theory_atoms_term_arguments(a, t, &p, &n)) {
            throw std::logic_error("theory api");
        }
        return {p, p + n};
    }
    int number(clingo_id_t t) {
        int n{};
        if (!clingo_theory_atoms_term_number(a, t, &n)) {
            throw std::logic_error("theory api");
        }
        return n;
    }
    i128 arith(std::string const &op, i128 x, i128 y) {
        if (op == "+") {
            return chk(x + y);
        }
        if (op == "-") {
            return chk(x - y);
        }
        if (op == "*") {
            return chk(x * y);
        }
        if (op == "/" || op == "\\") {
            if (y == 0) {
                throw ParseError("division by zero");
            }
            return chk(op == "/" ? x / y : x % y);
        }
        if (op == "**") {
            if (y < 0) {
                throw ParseError("negative exponent");
            }
            i128 r = 1;
            for (i128 i = 0; i < y; ++i) {
                r = chk(r * x);
                if (overflow || (x >= -1 && x <= 1 && i > 4)) {
                    if (!overflow && x == -1) {
                        r = y % 2 == 0 ? 1 : -1;
                    }
                    break;
                }
            }
            return r;
        }
        throw ParseError("operator");
    }
    static bool isOp(std::string const &n) {
        static std::set<std::string> const ops{"+", "-", "*", "/", "\\", "**", ".."};
        return ops.count(n) != 0;
    }
    //! Evaluate a term to a symbol (names of variables).
    Clingo::Symbol eval(clingo_id_t t) {
        switch (type(t)) {
            case clingo_theory_term_type_number: return Clingo::Number(number(t));
            case clingo_theory_term_type_symbol: {
                auto n = name(t);
                if (!n.empty() && n[0] == '"') {
                    std::string s;
                    bool esc = false;
                    for (size_t i = 1; i + 1 < n.size(); ++i) {
                        if (esc) {
                            s += n[i] == 'n' ? '\n' : n[i];
                            esc = false;
                        } else if (n[i] == '\\') {
                            esc = true;
                        } else {
                            s += n[i];
                        }
                    }
                    return Clingo::String(s.c_str());
                }
                return Clingo::Function(n.c_str(), {});
            }
            case clingo_theory_term_type_tuple: {
                std::vector<Clingo::Symbol> v;
                for (auto x : args(t)) {
                    v.push_back(eval(x));
                }
                return Clingo::Function("", v);
            }
            case clingo_theory_term_type_function: {
                auto n = name(t);
                auto as = args(t);
                if (isOp(n) && as.size() == 2) {
                    auto x = eval(as[0]);
                    auto y = eval(as[1]);
                    if (x.type() != Clingo::SymbolType::Number || y.type() != Clingo::SymbolType::Number) {
                        throw ParseError("ill-typed arithmetic");
                    }
                    i128 r = arith(n, x.number(), y.number());
                    if (r > INT32_MAX || r < INT32_MIN) {
                        throw ParseError("overflow in term");
                    }
                    return Clingo::Number(static_cast<int>(r));
                }
                if (n == "-" && as.size() == 1) {
                    auto x = eval(as[0]);
                    if (x.type() == Clingo::SymbolType::Number) {
                        i128 r = -static_cast<i128>(x.number());
                        if (r > INT32_MAX) {
                            throw ParseError("overflow in term");
                        }
                        return Clingo::Number(static_cast<int>(r));
                    }
                    if (x.type() == Clingo::SymbolType::Function && std::strlen(x.name()) > 0) {
                        return Clingo::Function(x.name(), x.arguments(), !x.is_positive());
                    }
                    throw ParseError("ill-typed negation");
                }
                std::vector<Clingo::Symbol> v;
                for (auto x : as) {
                    v.push_back(eval(x));
                }
                return Clingo::Function(n.c_str(), v);
            }
            default: throw ParseError("term kind");
        }
    }
    Lin var(clingo_id_t t) {
        Lin l;
        auto s = eval(t).to_string();
        l.t[s] = 1;
        mentioned.insert(s);
        return l;
    }
    Lin lin(clingo_id_t t) {
        Lin l;
        switch (type(t)) {
            case clingo_theory_term_type_number: {
                l.c = number(t);
                return l;
            }
            case clingo_theory_term_type_symbol: {
                auto n = name(t);
                if (n.size() > 2 && n[0] == '"') {
                    auto body = n.substr(1, n.size() - 2);
                    char *end = nullptr;
                    double d = std::strtod(body.c_str(), &end);
                    if (*end == '\0' && !body.empty()) {
                        if (!std::isfinite(d) || d != std::floor(d) || std::abs(d) > 2147483647.0) {
                            throw ParseError("number is not an integer");
                        }
                        l.c = static_cast<i64>(d);
                        return l;
                    }
                }
                return var(t);
            }
            case clingo_theory_term_type_tuple: return var(t);
            case clingo_theory_term_type_function: {
                auto n = name(t);
                auto as = args(t);
                if (as.size() == 2 && (n == "+" || n == "-")) {
                    l = lin(as[0]);
                    auto r = lin(as[1]);
                    i128 f = n == "+" ? 1 : -1;
                    for (auto &[v, c] : r.t) {
                        l.t[v] = chk(l.t[v] + f * c);
                    }
                    l.c = chk(l.c + f * r.c);
                    return l;
                }
                if (as.size() == 1 && (n == "+" || n == "-")) {
                    l = lin(as[0]);
                    if (n == "-") {
                        for (auto &[v, c] : l.t) {
                            c = chk(-c);
                        }
                        l.c = chk(-l.c);
                    }
                    return l;
                }
                if (as.size() == 2 && n == "*") {
                    auto x = lin(as[0]);
                    auto y = lin(as[1]);
                    if (!x.isConst() && !y.isConst()) {
                        throw ParseError("non-linear");
                    }
                    if (!x.isConst()) {
                        std::swap(x, y);
                    }
                    for (auto &[v, c] : y.t) {
                        l.t[v] = chk(c * x.c);
                    }
                    l.c = chk(y.c * x.c);
                    return l;
                }
                if (as.size() == 2 && (n == "/" || n == "\\" || n == "**" || n == "..")) {
                    if (n == "..") {
                        throw ParseError("interval");
                    }
                    auto x = lin(as[0]);
                    auto y = lin(as[1]);
                    if (!x.isConst() || !y.isConst()) {
                        throw ParseError("non-linear");
                    }
                    l.c = arith(n, x.c, y.c);
                    return l;
                }
                return var(t);
            }
            default: throw ParseError("term kind");
        }
    }
};

} // namespace

GAtom parseAtom(clingo_theory_atoms_t const *atoms, clingo_id_t idx) {
    OutScope os;
    GAtom g;
    TermParser p{atoms};
    try {
        clingo_id_t term{};
        if (!clingo_theory_atoms_atom_term(atoms, idx, &term)) {
            throw std::logic_error("theory api");
        }
        if (p.type(term) != clingo_theory_term_type_symbol) {
            return g;
        }
        auto name = p.name(term);
        if (name != "__diff_b" && name != "__diff_h") {
            return g;
        }
        g.diff = true;
        g.strict = name == "__diff_b";
        bool guard{};
        if (!clingo_theory_atoms_atom_has_guard(atoms, idx, &guard) || !guard) {
            throw ParseError("no guard");
        }
        char const *op{};
        clingo_id_t gterm{};
        if (!clingo_theory_atoms_atom_guard(atoms, idx, &op, &gterm)) {
            throw std::logic_error("theory api");
        }
        std::string o{op};
        bool known = false;
        for (auto r : {Rel::LE, Rel::LT, Rel::GE, Rel::GT, Rel::EQ, Rel::NE}) {
            if (o == relStr(r)) {
                g.rel = r;
                known = true;
            }
        }
        if (!known) {
            throw ParseError("operator");
        }
        auto rhs = p.lin(gterm);
        clingo_id_t const *elems{};
        size_t n{};
        if (!clingo_theory_atoms_atom_elements(atoms, idx, &elems, &n)) {
            throw std::logic_error("theory api");
        }
        if (n != 1) {
            throw ParseError("number of elements");
        }
        clingo_id_t const *tuple{};
        size_t tn{};
        clingo_literal_t const *cond{};
        size_t cn{};
        if (!clingo_theory_atoms_element_tuple(atoms, elems[0], &tuple, &tn) ||
            !clingo_theory_atoms_element_condition(atoms, elems[0], &cond, &cn)) {
            throw std::logic_error("theory api");
        }
        if (tn != 1 || cn != 0) {
            throw ParseError("element form");
        }
        auto lhs = p.lin(tuple[0]);
        for (auto &[v, c] : rhs.t) {
            lhs.t[v] = p.chk(lhs.t[v] - c);
        }
        for (auto &[v, c] : lhs.t) {
            if (c != 0) {
                g.terms[v] = c;
            }
        }
        g.rhs = p.chk(rhs.c - lhs.c);
        g.valid = true;
    } catch (ParseError const &e) {
        g.error = e.what();
    }
    g.overflow = p.overflow;
    g.mentioned = p.mentioned;
    return g;
}

bool asDiff(GAtom const &a, std::string &u, std::string &v, i64 &k) {
    u.clear();
    v.clear();
    if (!a.valid || a.terms.size() > 2) {
        return false;
    }
    for (auto const &[n, c] : a.terms) {
        if (c == 1 && u.empty()) {
            u = n;
        } else if (c == -1 && v.empty()) {
            v = n;
        } else {
            return false;
        }
    }
    k = static_cast<i64>(a.rhs);
    return true;
}

int Mon::node(std::string const &n) {
    auto r = nodes.emplace(n, static_cast<int>(nodeName.size()));
    if (r.second) {
        nodeName.push_back(n);
    }
    return r.first->second;
}

void Mon::initBegin(clingo_propagate_init_t *init) {
    if (!trackClauses && !trackFix) {
        return;
    }
    clingo_theory_atoms_t const *atoms{};
    size_t n{};
    if (!clingo_propagate_init_theory_atoms(init, &atoms) || !clingo_theory_atoms_size(atoms, &n)) {
        throw std::logic_error("theory api");
    }
    for (clingo_id_t i = 0; i < n; ++i) {
        auto g = parseAtom(atoms, i);
        if (!g.diff) {
            continue;
        }
        clingo_literal_t lit{};
        if (!clingo_theory_atoms_atom_literal(atoms, i, &lit) ||
            !clingo_propagate_init_solver_literal(init, lit, &g.lit)) {
            throw std::logic_error("theory api");
        }
        bool isTrue{};
        bool isFalse{};
        auto const *ass = clingo_propagate_init_assignment(init);
        if (!clingo_assignment_is_true(ass, g.lit, &isTrue) || !clingo_assignment_is_false(ass, g.lit, &isFalse)) {
            throw std::logic_error("assignment");
        }
        g.truth = isTrue ? 1 : isFalse ? -1 : 0;
        std::string u;
        std::string v;
        i64 k{};
        if (asDiff(g, u, v, k)) {
            int a = node(u);
            int b = node(v);
            auto rel = [&](int lit, Rel r) {
                if (r == Rel::NE) {
                    hasAuxCons = true;
                    return;
                }
                DiffSys s;
                addRel(s, r, a, b, k);
                for (auto &c : s.cons) {
                    cons.push_back({lit, c});
                }
            };
            rel(g.lit, g.rel);
            if (g.strict) {
                rel(-g.lit, negRel(g.rel));
            }
        }
        gatoms.push_back(std::move(g));
    }
}

void Mon::initEnd(clingo_propagate_init_t *init, bool ok) {
    static_cast<void>(init);
    static_cast<void>(ok);
}

void Mon::clause(bool init, clingo_assignment_t const *ass, int const *lits, size_t n, bool res) {
    if (onClause) {
        onClause(init, ass, lits, n);
    }
    static_cast<void>(res);
    if (hashTrace) {
        mix(init ? 6 : 7);
        std::vector<int> s(lits, lits + n);
        std::sort(s.begin(), s.end());
        for (auto l : s) {
            mix(static_cast<u64>(static_cast<i64>(l)) + 99);
        }
    }
    if (!trackClauses) {
        return;
    }
    std::unordered_set<int> asserted;
    for (size_t i = 0; i < n; ++i) {
        if (aux.count(std::abs(lits[i])) != 0) {
            nClausesAux++;
            return;
        }
        if (asserted.count(lits[i]) != 0) {
            return; // tautology
        }
        asserted.insert(-lits[i]);
    }
    DiffSys sys;
    auto fixed = [&](int l) {
        bool t{};
        uint32_t lvl{1};
        return clingo_assignment_is_true(ass, l, &t) && t && clingo_assignment_level(ass, l, &lvl) && lvl == 0;
    };
    for (size_t i = 0; i < n; ++i) {
        if (fixed(lits[i])) {
            return; // trivially satisfied
        }
    }
    for (auto const &c : cons) {
        if (asserted.count(c.lit) != 0) {
            sys.add(c.con.u, c.con.v, c.con.w);
        }
    }
    if (!sys.consistent()) {
        return;
    }
    for (auto const &c : cons) {
        if (asserted.count(c.lit) == 0 && fixed(c.lit)) {
            sys.add(c.con.u, c.con.v, c.con.w);
        }
    }
    if (!sys.consistent()) {
        return;
    }
    for (auto l : aux) {
        if (fixed(l) || fixed(-l)) {
            nClausesAux++; // may rest on fixed internal literals whose meaning is unknown here
            return;
        }
    }
    std::ostringstream o;
    o << (init ? "clause added during initialization" : "clause added during search")
      << " is not implied by the difference constraints:";
    for (size_t i = 0; i < n; ++i) {
        o << " " << lits[i];
    }
    o << " where";
    for (auto const &c : cons) {
        if (asserted.count(c.lit) != 0) {
            o << " [" << c.lit << ": " << nodeName[c.con.u] << " - " << nodeName[c.con.v] << " <= " << c.con.w << "]";
        }
    }
    error(o.str());
}

void FixProp::init(Clingo::PropagateInit &init) { init.set_check_mode(Clingo::PropagatorCheckMode::Both); }

void FixProp::check(Clingo::PropagateControl &ctl) {
    OutScope os;
    if (!mon.trackFix) {
        return;
    }
    auto ass = ctl.assignment();
    if (ass.has_conflict()) {
        return;
    }
    mon.nFix++;
    DiffSys sys;
    sys.n = static_cast<int>(mon.nodeName.size());
    std::vector<int> lits;
    for (auto const &c : mon.cons) {
        if (ass.is_true(c.lit)) {
            sys.add(c.con.u, c.con.v, c.con.w);
            lits.push_back(c.lit);
        }
    }
    auto show = [&](Con const &c) {
        std::ostringstream o;
        o << "[" << (mon.nodeName[c.u].empty() ? "0" : mon.nodeName[c.u]) << " - "
          << (mon.nodeName[c.v].empty() ? "0" : mon.nodeName[c.v]) << " <= " << c.w << "]";
        return o.str();
    };
    auto conflict = sys.conflict();
    if (!conflict.empty()) {
        std::ostringstream o;
        o << "at a propagation fixpoint on level " << ass.decision_level()
          << " contradictory constraints are asserted:";
        for (auto i : conflict) {
            o << " " << show(sys.cons[i]);
        }
        mon.error(o.str());
        return;
    }
    int s = strength ? strength(ctl.thread_id(), ass.decision_level()) : 0;
    if (s == 0) {
        return;
    }
    auto d = sys.closure();
    int n = sys.n;
    for (auto const &c : mon.cons) {
        if (ass.truth_value(c.lit) != Clingo::TruthValue::Free) {
            continue;
        }
        mon.nFixFree++;
        i64 path = DiffSys::INF;
        int u = c.con.u;
        int v = c.con.v;
        if (s == 3) {
            path = d[v * n + u];
        } else if (s == 2) {
            // direct inverse constraints are covered as well by all stronger modes
            for (auto const &x : sys.cons) {
                if (x.u == v && x.v == u) {
                    path = std::min(path, x.w);
                }
            }
            if (d[v * n + 0] < DiffSys::INF && d[0 * n + u] < DiffSys::INF) {
                path = std::min(path, d[v * n + 0] + d[0 * n + u]);
            }
        } else {
            for (auto const &x : sys.cons) {
                if (x.u == v && x.v == u) {
                    path = std::min(path, x.w);
                }
            }
        }
        if (path < DiffSys::INF && path + c.con.w < 0) {
            std::ostringstream o;
            o << "at a propagation fixpoint on level " << ass.decision_level() << " undecided constraint "
              << show(c.con) << " contradicts the asserted constraints ("
              << (s == 3 ? "full propagation" : s == 2 ? "zero propagation" : "inverse propagation") << "):";
            for (auto const &x : sys.cons) {
                o << " " << show(x);
            }
            mon.error(o.str());
            return;
        }
    }
}

} // namespace M
