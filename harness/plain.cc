// A deliberately simple propagator for difference constraints. It replays
// multi-shot sessions to find out whether a deviation is caused by libclingo
// itself rather than by the theory (libclingo 5.6.2 confuses literals in rare
// multi-shot situations even in programs without theory constraints).
#include "dlmon.hh"

namespace M {

thread_local bool nextPlain = false;

namespace {

class PlainProp : public Clingo::Propagator {
  public:
    DLRun *run{nullptr};
    std::map<std::string, int> nodes{{"", 0}};
    std::vector<std::string> names{""};
    std::vector<LitCon> cons;
    std::array<std::map<std::string, i64>, 64> values;

    int node(std::string const &n) {
        auto r = nodes.emplace(n, static_cast<int>(names.size()));
        if (r.second) {
            names.push_back(n);
        }
        return r.first->second;
    }
    void add(int lit, Rel r, int u, int v, i64 k) {
        DiffSys s;
        addRel(s, r, u, v, k);
        for (auto const &c : s.cons) {
            cons.push_back({lit, c});
        }
    }
    void callback() const {
        if (run->plainCallback) {
            run->plainCallback();
        }
    }
    void init(Clingo::PropagateInit &init) override {
        callback();
        init.set_check_mode(Clingo::PropagatorCheckMode::Total);
        auto const *atoms = init.theory_atoms().to_c();
        size_t n{};
        Clingo::Detail::handle_error(clingo_theory_atoms_size(atoms, &n));
        for (clingo_id_t i = 0; i < n; ++i) {
            auto g = parseAtom(atoms, i);
            std::string us;
            std::string vs;
            i64 k{};
            if (!g.diff || !asDiff(g, us, vs, k)) {
                continue;
            }
            clingo_literal_t lit{};
            Clingo::Detail::handle_error(clingo_theory_atoms_atom_literal(atoms, i, &lit));
            int l = init.solver_literal(lit);
            int u = node(us);
            int v = node(vs);
            if (us.empty() && vs.empty()) {
                if (evalRel(g.rel, 0, k)) {
                    if (g.strict) {
                        init.add_clause({l});
                    }
                } else {
                    init.add_clause({-l});
                }
                continue;
            }
            auto rel = g.rel;
            if (g.strict && rel == Rel::NE) {
                l = -l;
                rel = Rel::EQ;
            }
            if (rel == Rel::NE) {
                int a = init.add_literal();
                int b = init.add_literal();
                init.add_clause({a, b, -l});
                init.add_clause({-a, -b});
                init.add_clause({l, -a});
                init.add_clause({l, -b});
                add(a, Rel::LT, u, v, k);
                add(b, Rel::GT, u, v, k);
            } else if (rel == Rel::EQ && g.strict) {
                int a = init.add_literal();
                int b = init.add_literal();
                init.add_clause({-l, a});
                init.add_clause({-l, b});
                init.add_clause({-a, -b, l});
                add(a, Rel::LE, u, v, k);
                add(-a, Rel::GT, u, v, k);
                add(b, Rel::GE, u, v, k);
                add(-b, Rel::LT, u, v, k);
            } else {
                add(l, rel, u, v, k);
                if (g.strict) {
                    add(-l, negRel(rel), u, v, k);
                }
            }
        }
    }
    void check(Clingo::PropagateControl &ctl) override {
        callback();
        auto ass = ctl.assignment();
        DiffSys sys;
        sys.n = static_cast<int>(names.size());
        std::vector<int> lits;
        for (auto const &c : cons) {
            if (ass.is_true(c.lit)) {
                sys.add(c.con.u, c.con.v, c.con.w);
                lits.push_back(c.lit);
            }
        }
        auto confl = sys.conflict();
        if (!confl.empty()) {
            std::vector<int> clause;
            for (auto i : confl) {
                clause.push_back(-lits[i]);
            }
            ctl.add_clause(Clingo::LiteralSpan{clause.data(), clause.size()});
            return;
        }
        // Note: some assignments of models do not count as total
        {
            std::vector<i64> d(sys.n, 0);
            for (bool change = true; change;) {
                change = false;
                for (auto const &c : sys.cons) {
                    if (d[c.v] + c.w < d[c.u]) {
                        d[c.u] = d[c.v] + c.w;
                        change = true;
                    }
                }
            }
            auto &val = values[ctl.thread_id()];
            val.clear();
            for (int i = 1; i < sys.n; ++i) {
                val[names[i]] = d[i] - d[0];
            }
        }
    }
};

} // namespace

void DLRun::registerPlain() {
    auto prop = std::make_shared<PlainProp>();
    plain = prop;
    prop->run = this;
    ctl_->add("base", {}, R"(#theory dl {
term { + : 1, binary, left; - : 1, binary, left; * : 2, binary, left; / : 2, binary, left; - : 3, unary };
&__diff_h/0 : term, {<=,>=,<,>,=,!=}, term, head;
&__diff_b/0 : term, {<=,>=,<,>,=,!=}, term, body
}.)");
    ctl_->register_propagator(*prop);
    plainValues = [p = prop.get()](unsigned thread) { return p->values[thread]; };
}

} // namespace M
