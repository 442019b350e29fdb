// C10: constraint expressions mean what their arithmetic says.
// C12: malformed constraints are rejected, well-formed ones are not.
#include "dlmon.hh"

#include <algorithm>

namespace M {

namespace {

//! An expression together with its exact meaning.
struct Expr {
    std::string text;
    int prec{4};                   //!< 1: sum, 2: product, 3: unary minus, 4: atom
    std::map<std::string, i128> t; //!< coefficients
    i128 c{0};                     //!< constant
    i128 mag{0};                   //!< bound on all intermediate results

    std::string at(int p, Rng &rng) const {
        bool par = prec < p || rng.chance(6);
        return par ? "(" + text + ")" : text;
    }
};

std::string dec(i128 x) {
    if (x == 0) {
        return "0";
    }
    bool neg = x < 0;
    std::string s;
    for (i128 y = neg ? -x : x; y > 0; y /= 10) {
        s += static_cast<char>('0' + static_cast<int>(y % 10));
    }
    if (neg) {
        s += '-';
    }
    std::reverse(s.begin(), s.end());
    return s;
}

i128 absx(i128 x) { return x < 0 ? -x : x; }

Expr neg(Rng &rng, Expr e) {
    Expr r = e;
    r.text = "- " + e.at(3, rng);
    r.prec = 3;
    for (auto &[v, c] : r.t) {
        c = -c;
    }
    r.c = -r.c;
    return r;
}

Expr bin(Rng &rng, char op, Expr const &a, Expr const &b) {
    Expr r = a;
    r.prec = 1;
    r.text = a.at(1, rng) + " " + op + " " + b.at(2, rng);
    i128 f = op == '+' ? 1 : -1;
    for (auto const &[v, c] : b.t) {
        r.t[v] += f * c;
    }
    r.c += f * b.c;
    r.mag = a.mag + b.mag;
    return r;
}

//! Product; at least one argument has to be constant.
Expr mul(Rng &rng, Expr const &a, Expr const &b) {
    Expr r;
    r.prec = 2;
    r.text = a.at(2, rng) + " * " + b.at(3, rng);
    bool left = a.t.empty();
    auto const &k = left ? a : b;
    auto const &e = left ? b : a;
    for (auto const &[v, c] : e.t) {
        r.t[v] = c * k.c;
    }
    r.c = e.c * k.c;
    r.mag = std::max(static_cast<i128>(1), a.mag) * std::max(static_cast<i128>(1), b.mag);
    return r;
}

Expr constant(Rng &rng, i128 k, int depth, bool strings);

//! Number terms only consist of numerals and operators (can be used below division and in names).
Expr number(Rng &rng, i128 k, int depth) { return constant(rng, k, depth, false); }

Expr literalNumber(Rng &rng, i128 k, bool strings) {
    Expr e;
    e.c = k;
    e.mag = absx(k);
    if (strings && rng.chance(15)) {
        e.text = "\"" + dec(k) + (rng.chance(30) ? ".0" : rng.chance(10) ? "e0" : "") + "\"";
        return e;
    }
    if (k >= 0) {
        e.text = dec(k);
        return e;
    }
    e.text = "- " + dec(-k);
    e.prec = 3;
    return e;
}

Expr constant(Rng &rng, i128 k, int depth, bool strings) {
    i64 const lim = 1000000000;
    if (depth <= 0 || absx(k) > lim) {
        if (absx(k) > 2147483647) {
            // write large numbers as sums or products
            if (strings && rng.chance(30)) {
                Expr e;
                e.c = k;
                e.mag = absx(k);
                e.text = "\"" + dec(k) + "\"";
                return e;
            }
            if (absx(k) < static_cast<i128>(4) * lim) {
                i128 a = k / 2;
                return bin(rng, '+', constant(rng, a, 0, strings), constant(rng, k - a, 0, strings));
            }
            i128 m = rng.range(40000, 100000);
            return bin(rng, '+', mul(rng, constant(rng, m, 0, strings), constant(rng, k / m, 0, strings)),
                       constant(rng, k % m, 0, strings));
        }
        return literalNumber(rng, k, strings);
    }
    switch (rng.range(0, 8)) {
        case 0: {
            i64 a = rng.range(-50, 50);
            return bin(rng, '+', constant(rng, k - a, depth - 1, strings), constant(rng, a, depth - 1, strings));
        }
        case 1: {
            i64 a = rng.range(-50, 50);
            return bin(rng, '-', constant(rng, k + a, depth - 1, strings), constant(rng, a, depth - 1, strings));
        }
        case 2: {
            for (int f : {2, 3, 5, 7, -1, -2}) {
                if (k % f == 0 && rng.chance(60)) {
                    auto a = constant(rng, f, depth - 1, strings);
                    auto b = constant(rng, k / f, depth - 1, strings);
                    return rng.chance(50) ? mul(rng, a, b) : mul(rng, b, a);
                }
            }
            return literalNumber(rng, k, strings);
        }
        case 3: {
            // division: exact for negative numbers, with remainder for nonnegative ones
            i64 d = rng.pick({1, 2, 3, 4, 7, 10});
            i128 n = k * d;
            if (k >= 0) {
                n += rng.range(0, static_cast<int>(d) - 1);
            } else if (rng.chance(30)) {
                d = -d;
                n = -n;
            }
            if (absx(n) > lim) {
                return literalNumber(rng, k, strings);
            }
            auto a = number(rng, n, depth - 1);
            auto b = number(rng, d, depth - 1);
            Expr r;
            r.prec = 2;
            r.text = a.at(2, rng) + " / " + b.at(3, rng);
            r.c = k;
            r.mag = a.mag + b.mag;
            return r;
        }
        case 4: return neg(rng, constant(rng, -k, depth - 1, strings));
        default: return literalNumber(rng, k, strings);
    }
}

//! Ways to write a variable; the second component is the evaluated name.
struct VarForm {
    std::string name;
    std::vector<std::string> forms;
};

std::vector<VarForm> const &varForms() {
    static std::vector<VarForm> const forms{
        {"a", {"a"}},
        {"bC_1", {"bC_1"}},
        {"x(3)", {"x(3)", "x(1 + 2)", "x(5 - 2)", "x(6 / 2)", "x(7 / 2)", "x(- (- 3))", "x(3 * 1)", "x((3))"}},
        {"x(-2)", {"x(- 2)", "x(0 - 2)", "x(2 * (- 1))", "x(-4 / 2)", "x(1 - 3)", "x(- (1 + 1))"}},
        {"y(b,2)", {"y(b,2)", "y(b, 1 + 1)", "y(b,2 * 3 - 4)", "y((b),2)"}},
        {"(1,c)", {"(1,c)", "(2 - 1,c)", "(3 / 2, c)"}},
        {"(4,)", {"(4,)", "(2 * 2,)"}},
        {"z(w(0))", {"z(w(0))", "z(w(1 - 1))", "z(w(0 * 9))"}},
        {"s(\"q r\")", {"s(\"q r\")"}},
        {"\"str\"", {"\"str\""}},
        {"\"a\\\"b\\\\c\"", {"\"a\\\"b\\\\c\""}},
        {"\"\"", {"\"\""}},
        {"\"1 2\"", {"\"1 2\""}},
        {"f(\"7\")", {"f(\"7\")"}},
        {"f(\"a\\nb\")", {"f(\"a\\nb\")"}},
        {"f(\"anb\")", {"f(\"anb\")"}},
        {"f(\"a\\\\nb\")", {"f(\"a\\\\nb\")"}},
        {"\"a\\nb\"", {"\"a\\nb\""}},
        {"g(-a)", {"g(- a)", "g(- (- (- a)))"}},
        {"g(a)", {"g(a)", "g(- (- a))", "g(- (- (- (- a))))"}},
        {"k(-f(1))", {"k(- f(1))", "k(- (- (- f(3 - 2))))"}},
        {"k(f(1))", {"k(f(1))", "k(- (- f(1)))"}},
        {"h(2147483647)", {"h(2147483647)", "h(2147483646 + 1)"}},
        {"_u(1,2,3)", {"_u(1,2,3)", "_u(1,1 + 1,1 + 1 + 1)"}},
    };
    return forms;
}

Expr variable(Rng &rng, VarForm const &f) {
    Expr e;
    e.text = rng.pick(f.forms);
    e.t[f.name] = 1;
    e.mag = 1;
    return e;
}

//! Combine (positively counted) items into a sum.
Expr combine(Rng &rng, std::vector<Expr> items) {
    if (items.empty()) {
        return literalNumber(rng, 0, false);
    }
    if (items.size() == 1) {
        return items[0];
    }
    auto n = static_cast<int>(items.size());
    int cut = rng.chance(60) ? n - 1 : rng.range(1, n - 1);
    std::vector<Expr> l(items.begin(), items.begin() + cut);
    std::vector<Expr> r(items.begin() + cut, items.end());
    if (rng.chance(50)) {
        return bin(rng, '+', combine(rng, std::move(l)), combine(rng, std::move(r)));
    }
    for (auto &x : r) {
        // negated items: drop the sign if there is one already
        if (x.prec == 3 && x.text.rfind("- ", 0) == 0 && rng.chance(70)) {
            Expr y = x;
            for (auto &[v, c] : y.t) {
                c = -c;
            }
            y.c = -y.c;
            y.text = x.text.substr(2);
            y.prec = 3;
            x = y;
        } else {
            x = neg(rng, x);
        }
    }
    return bin(rng, '-', combine(rng, std::move(l)), combine(rng, std::move(r)));
}

//! Some items that sum up to coefficient f for the variable.
void addVar(Rng &rng, std::vector<Expr> &items, VarForm const &v, i64 f, int depth) {
    auto item = [&](i64 g) {
        if (g == 1 && rng.chance(80)) {
            items.push_back(variable(rng, v));
        } else if (g == -1 && rng.chance(70)) {
            items.push_back(neg(rng, variable(rng, v)));
        } else {
            auto k = constant(rng, g, depth, true);
            auto x = variable(rng, v);
            items.push_back(rng.chance(60) ? mul(rng, k, x) : mul(rng, x, k));
        }
    };
    if (f == 0 && !rng.chance(60)) {
        // mentioned but without effect
        item(0);
        return;
    }
    if (f != 0 && rng.chance(60)) {
        item(f);
        return;
    }
    i64 g = rng.range(-4, 4);
    item(g);
    item(f - g);
}

struct Side {
    Expr lhs, rhs;
};

//! Write u - v + rest rel k where u and v may be absent.
Side arrange(Rng &rng, VarForm const *u, VarForm const *v, VarForm const *w, i128 k, int depth, bool large) {
    std::vector<Expr> items; // sum of items is u - v - k
    if (u != nullptr) {
        addVar(rng, items, *u, 1, depth);
    }
    if (v != nullptr) {
        addVar(rng, items, *v, -1, depth);
    }
    if (w != nullptr) {
        addVar(rng, items, *w, 0, depth);
    }
    std::vector<Expr> consts;
    i128 rest = -k;
    int parts = rng.pick({1, 1, 1, 2, 3});
    for (int i = 1; i < parts; ++i) {
        i64 a = large ? rng.range(-3, 3) : rng.range(-100, 100);
        consts.push_back(constant(rng, a, depth, true));
        rest -= a;
    }
    if (rest != 0 || rng.chance(20)) {
        consts.push_back(constant(rng, rest, depth, true));
    }
    std::vector<Expr> l;
    std::vector<Expr> r;
    bool standard = rng.chance(40);
    for (auto &x : items) {
        (standard || rng.chance(75) ? l : r).push_back(x);
    }
    for (auto &x : consts) {
        (standard || rng.chance(60) ? r : l).push_back(x);
    }
    rng.shuffle(l);
    rng.shuffle(r);
    for (auto &x : r) {
        x = neg(rng, x);
    }
    // expressions distributed over sums and scaled
    Side s{combine(rng, l), combine(rng, r)};
    if (!large && rng.chance(8)) {
        // subtract the same on both sides
        auto x = constant(rng, rng.range(-20, 20), depth, true);
        s.lhs = bin(rng, '-', s.lhs, x);
        s.rhs = bin(rng, '-', s.rhs, x);
    }
    return s;
}

std::string coef(std::map<std::string, i128> const &t) {
    std::string s;
    for (auto const &[v, c] : t) {
        if (c != 0) {
            s += dec(c) + "*" + v + " ";
        }
    }
    return s;
}

bool relEval(Rel r, i128 x, i128 k) {
    switch (r) {
        case Rel::LE: return x <= k;
        case Rel::LT: return x < k;
        case Rel::GE: return x >= k;
        case Rel::GT: return x > k;
        case Rel::EQ: return x == k;
        case Rel::NE: return x != k;
    }
    return false;
}

//! Write f*v (where f is neither one nor minus one nor zero) as sum whose numbers fit.
std::string bigCoef(Rng &rng, std::string const &v, i128 f) {
    i128 const lim = 2147483647;
    std::vector<i128> parts;
    while (absx(f) > 3 * lim) {
        // write as product and remainder
        i128 m = rng.range(60000, 2000000000);
        i128 q = f / m;
        if (absx(q) > lim) {
            q = q > 0 ? lim : -lim;
            m = f / q;
        }
        if (absx(m) > lim) {
            return dec(f / 2147483648LL / 65536) + " * 65536 * 65536 * 32768 * " + v;
        }
        return "(" + dec(m) + ") * (" + dec(q) + ") * " + v + " + (" + dec(f - m * q) + ") * " + v;
    }
    for (int n = 4; n > 1; --n) {
        i128 rest = static_cast<i128>(n - 1) * lim;
        i128 lo = std::max(-lim, f - rest);
        i128 hi = std::min(lim, f + rest);
        i128 x = rng.chance(50) ? hi : rng.chance(30) ? lo : lo + static_cast<i128>(rng.next() % static_cast<u64>(hi - lo + 1));
        parts.push_back(x);
        f -= x;
    }
    parts.push_back(f);
    rng.shuffle(parts);
    std::string ret;
    for (auto &x : parts) {
        ret += (ret.empty() ? "" : " + ");
        ret += rng.chance(50) ? "(" + dec(x) + ") * " + v : v + " * (" + dec(x) + ")";
    }
    return ret;
}

//! Run a program; returns an error message or nothing.
std::optional<std::string> runProgram(Case &c, Opts const &opts, std::vector<std::string> const &args,
                                      std::string const &text, SolveOut *out, std::string *stage = nullptr) {
    std::string dummy;
    auto &st = stage != nullptr ? *stage : dummy;
    st = "setup";
    try {
        DLRun run{opts, args};
        run.solveMode = c.rng.pick({0, 0, 1, 2});
        st = "rewrite";
        run.parse(text);
        st = "ground";
        run.ground();
        st = "solve";
        auto o = run.solve();
        if (out != nullptr) {
            *out = std::move(o);
        }
        return std::nullopt;
    } catch (Violation const &) {
        throw;
    } catch (std::exception const &e) {
        return std::string(e.what());
    }
}

//! Exactly evaluated arithmetic over numbers at the borders of the range.
struct Arith {
    std::string text;
    i128 val{0};
    bool fits{true};   //!< All results fit.
    bool open{false};  //!< Whether an error is acceptable though the results fit (or the other way around).
};

bool fitsInt(i128 x) { return x >= -2147483648LL && x <= 2147483647LL; }

i128 borderNumber(Rng &rng) {
    i128 x = 0;
    switch (rng.range(0, 5)) {
        case 0: x = rng.range(0, 9); break;
        case 1: x = (static_cast<i128>(1) << rng.range(1, 31)) + rng.range(-1, 1); break;
        case 2: x = rng.pick({46340, 46341, 65535, 65536, 65537, 1290, 1291, 215, 216}); break;
        case 3: x = 2147483647LL - rng.range(0, 3); break;
        case 4: x = 2147483647LL / rng.range(2, 50) + rng.range(-1, 1); break;
        default: x = static_cast<i128>(rng.next() % 2147483648ULL); break;
    }
    x = std::min<i128>(x, 2147483648LL);
    return rng.chance(45) ? -x : std::min<i128>(x, 2147483647LL);
}

Arith borderLiteral(Rng &rng, i128 x) {
    Arith a;
    a.val = x;
    if (x >= 0) {
        a.text = dec(x);
    } else if (x == -2147483648LL) {
        a.text = rng.pick({"(0-2147483647-1)", "(-2147483647-1)", "((-1)-2147483647)"});
    } else {
        a.text = rng.chance(50) ? "(0-" + dec(-x) + ")" : "(-" + dec(-x) + ")";
    }
    return a;
}

Arith borderExpr(Rng &rng, int depth) {
    if (depth <= 0 || rng.chance(15)) {
        return borderLiteral(rng, borderNumber(rng));
    }
    auto l = borderExpr(rng, depth - 1);
    auto op = rng.pick({'+', '+', '-', '-', '*', '*', '*', '/', '/', 'u'});
    if (!l.fits) {
        op = 'u';
    }
    if (op == 'u') {
        if (l.fits) {
            l.val = -l.val;
            l.fits = fitsInt(l.val);
        }
        l.text = "(-" + l.text + ")";
        return l;
    }
    // choose the second operand such that the result is close to a border
    Arith r;
    i128 border = rng.chance(50) ? 2147483647LL : -2147483648LL;
    if (rng.chance(60) && op != '/') {
        i128 x = 0;
        if (op == '+') {
            x = border - l.val + rng.range(-2, 2);
        } else if (op == '-') {
            x = l.val - border + rng.range(-2, 2);
        } else {
            x = l.val != 0 ? (border + rng.range(-1, 1)) / l.val + rng.pick({-1, 0, 0, 0, 1}) : rng.range(-5, 5);
        }
        r = borderLiteral(rng, fitsInt(x) ? x : borderNumber(rng));
    } else {
        r = borderExpr(rng, depth - 1);
    }
    Arith a;
    a.fits = l.fits && r.fits;
    a.open = l.open || r.open;
    a.text = "(" + l.text + op + r.text + ")";
    if (!a.fits) {
        return a;
    }
    switch (op) {
        case '+': a.val = l.val + r.val; break;
        case '-': a.val = l.val - r.val; break;
        case '*': a.val = l.val * r.val; break;
        default: {
            if (r.val == 0) {
                a.fits = false;
                return a;
            }
            a.val = l.val / r.val;
            break;
        }
    }
    a.fits = fitsInt(a.val);
    return a;
}

void borderArithmetic(Case &c) {
    auto &rng = c.rng;
    Arith e;
    bool name = rng.chance(60);
    bool factors = !name && rng.chance(60);
    if (factors) {
        // products that are multiplied as coefficients
        int n = rng.range(2, 3);
        e = borderLiteral(rng, borderNumber(rng));
        for (int i = 1; i < n; ++i) {
            i128 border = (rng.chance(50) ? 2147483647LL : -2147483648LL) + rng.range(-1, 1);
            i128 x = e.val != 0 && rng.chance(70) ? border / e.val + rng.pick({-1, 0, 0, 0, 1}) : borderNumber(rng);
            auto r = borderLiteral(rng, fitsInt(x) ? x : borderNumber(rng));
            e.text = rng.chance(50) ? e.text + "*" + r.text : "(" + e.text + "*" + r.text + ")";
            e.val *= r.val;
            // Note: the border itself cannot be negated
            e.open = e.open || (i + 1 < n && !fitsInt(e.val));
            e.fits = fitsInt(e.val);
        }
        e.open = e.fits && (e.open || e.val == -2147483648LL);
    } else {
        e = borderExpr(rng, rng.range(1, 3));
        if (!name && e.fits && e.val == -2147483648LL) {
            e.open = true;
        }
    }
    bool eq = !name && e.fits && absx(e.val) <= 500000000;
    auto text = name ? "&diff { f(" + e.text + ") - 0 } <= 0.\n"
                     : "&diff { a - 0 } " + std::string(eq ? "=" : "<=") + " " + e.text + (factors ? "" : "/1") + ".\n";
    c.log << "% arithmetic: " << (e.fits ? dec(e.val) : "does not fit") << (e.open ? " (open)" : "") << "\n" << text;
    SolveOut out;
    auto err = runProgram(c, randomDlOpts(rng), {"0", "--warn=none"}, text, &out);
    c.nontrivial(text);
    if (e.open) {
        c.count("arithmetic left open");
        return;
    }
    if (err) {
        if (e.fits) {
            violate("arithmetic whose results fit was rejected: " + *err);
        }
        c.count("arithmetic out of range rejected");
        return;
    }
    if (!e.fits) {
        violate("arithmetic with results out of range was accepted");
    }
    c.count("arithmetic at the borders");
    if (name || eq) {
        auto n = name ? "f(" + dec(e.val) + ")" : "a";
        for (auto const &m : out.models) {
            auto it = m.ival.find(n);
            if (it == m.ival.end() || m.ival.size() != 1) {
                violate("there is no value for " + n);
            }
            if (eq && it->second != e.val) {
                violate("value " + dec(it->second) + " instead of " + dec(e.val));
            }
        }
        if (out.models.size() != 1) {
            violate("expected exactly one answer");
        }
    }
}

} // namespace

CHECK(C10) {
    auto &rng = c.rng;
    if (rng.chance(8)) {
        borderArithmetic(c);
        return;
    }
    auto forms = varForms();
    rng.shuffle(forms);
    if (rng.chance(4)) {
        // coefficients beyond the range that look like supported ones if they wrap around
        auto f = (static_cast<i128>(1) << rng.pick({31, 32, 32, 32, 33, 64})) * rng.pick({1, 1, 1, -1, 2, 3}) +
                 rng.pick({-1, 0, 1});
        auto x = rng.pick(forms[0].forms);
        auto lhs = bigCoef(rng, x, f);
        if (rng.chance(70)) {
            lhs += (f > 0 ? " - " : " + ") + rng.pick(forms[1].forms);
        }
        std::string rhs = std::to_string(rng.range(0, 9));
        if (rng.chance(30)) {
            std::swap(lhs, rhs);
        }
        auto atom = "&diff { " + lhs + " } " + relStr(rng.pick({Rel::LE, Rel::LT, Rel::GE, Rel::GT, Rel::EQ, Rel::NE})) +
                    " " + rhs;
        auto text = (rng.chance(50) ? "b :- " + atom : atom) + ".\n";
        c.log << "% coefficient " << dec(f) << "\n" << text;
        if (!runProgram(c, randomDlOpts(rng), {"0", "--warn=none"}, text, nullptr)) {
            violate("the coefficient " + dec(f) + " does not fit but no error was reported");
        }
        c.count("coefficients out of range rejected");
        c.nontrivial(atom);
        return;
    }
    bool large = rng.chance(15);
    int nv = rng.pick({2, 2, 2, 2, 1, 1, 0});
    VarForm const *u = nv >= 1 ? &forms[0] : nullptr;
    VarForm const *v = nv == 2 ? &forms[1] : nullptr;
    if (nv == 1 && rng.chance(50)) {
        std::swap(u, v);
    }
    VarForm const *w = rng.chance(20) ? &forms[2] : nullptr;
    i128 k = 0;
    if (large) {
        std::vector<i128> base{2147483647, -2147483648LL, 1073741824, -1073741824, 4294967296LL, -4294967296LL,
                               3000000000LL, -3000000000LL, 2147483646, 1000000000000LL, 4611686018427387904LL,
                               536870912, 2000000000, -2000000000};
        k = base[rng.next() % base.size()] + rng.range(-3, 3);
    } else {
        k = rng.chance(70) ? rng.range(-12, 12) : rng.range(-100000, 100000);
    }
    auto rel = rng.pick({Rel::LE, Rel::LT, Rel::GE, Rel::GT, Rel::EQ, Rel::NE});
    bool body = rng.chance(45);
    bool simple = rng.chance(70);
    if (absx(k) > 1000000000 && k <= 2147483647 && k >= -2147483648LL) {
        // sums of weights and values have to fit as well
        rel = rng.pick({Rel::LE, Rel::LT, Rel::GE, Rel::GT});
        body = false;
        simple = true;
        // values and weights are one beyond the range here
        if ((rel == Rel::LE && k == -2147483648LL) || (rel == Rel::LT && k == -2147483647LL)) {
            k += 3;
        }
    }
    int depth = rng.range(0, 3);
    auto s = arrange(rng, u, v, w, k, depth, large);
    auto atom = "&diff { " + s.lhs.text + " } " + relStr(rel) + " " + s.rhs.text;
    // compute the meaning once more to guard against errors in the generator
    std::map<std::string, i128> t = s.lhs.t;
    for (auto const &[n, x] : s.rhs.t) {
        t[n] -= x;
    }
    std::map<std::string, i128> want;
    if (u != nullptr) {
        want[u->name] += 1;
    }
    if (v != nullptr) {
        want[v->name] -= 1;
    }
    if (coef(t) != coef(want) || s.rhs.c - s.lhs.c != k) {
        throw std::logic_error("generator produced a wrong expression: " + atom + " has " + coef(t));
    }
    i128 mag = s.lhs.mag + s.rhs.mag;
    c.log << "% meaning: " << (u != nullptr ? u->name : "0") << " - " << (v != nullptr ? v->name : "0") << " "
          << relStr(rel) << " " << dec(k) << "\n";
    i128 const maxInt = 2147483647;
    bool mustFail = k > maxInt || k < -maxInt - 1;
    bool mustWork = mag <= maxInt - 3;
    bool probes = absx(k) <= 500000000;
    std::ostringstream text;
    std::vector<i128> ts;
    if (body) {
        text << "b :- " << atom << ".\n";
    } else if (simple) {
        text << atom << ".\n";
    } else {
        text << "{q}.\n:- not q.\n" << atom << " :- q.\n";
    }
    if (probes) {
        for (int d : {-100, -2, -1, 0, 1, 2, 100}) {
            ts.push_back(k + d);
        }
        text << "1 { p(0.." << ts.size() - 1 << ") } 1.\n";
        for (size_t i = 0; i < ts.size(); ++i) {
            if (nv == 0) {
                continue;
            }
            auto n = u != nullptr ? (v != nullptr ? u->name + " - " + v->name : u->name) : "0 - " + v->name;
            text << "&diff { " << n << " } = " << (ts[i] < 0 ? "(" + dec(ts[i]) + ")" : dec(ts[i])) << " :- p(" << i
                 << ").\n";
        }
    }
    c.log << text.str();
    auto opts = large ? Opts{} : randomDlOpts(rng);
    if (rng.chance(20)) {
        opts.emplace_back("shift-constraints", "yes");
    }
    c.log << "% options: " << optsStr(opts) << "\n";
    SolveOut out;
    auto err = runProgram(c, opts, {"0", "--warn=none"}, text.str(), &out);
    if (err) {
        if (err->empty()) {
            violate("an error without message was reported");
        }
        c.count("errors reported");
        if (mustWork) {
            violate("well-formed constraint with small numbers was rejected: " + *err);
        }
        c.count(mustFail ? "numbers out of range rejected" : "intermediate results out of range rejected");
        c.nontrivial(atom);
        return;
    }
    if (mustFail) {
        violate("the constant " + dec(k) + " does not fit but no error was reported");
    }
    if (!mustWork) {
        c.count("large numbers handled exactly");
    }
    c.nontrivial(atom);
    c.tags->insert(std::string(relStr(rel)) + (body ? " body" : " head") + std::to_string(nv));
    if (!probes) {
        if (body && nv == 0) {
            bool b = !out.models.empty() && !out.models[0].atoms.empty();
            if (b != relEval(rel, 0, k)) {
                violate("constraint over large constants misinterpreted");
            }
            return;
        }
        if (!body && nv == 0) {
            if (out.models.empty() == relEval(rel, 0, k)) {
                violate("constraint over large constants misinterpreted");
            }
            return;
        }
        // the values have to satisfy the constraint; values beyond the range are out of scope
        c.count("extreme constants solved");
        if (out.models.empty() && absx(k) < maxInt - 1) {
            violate("satisfiable constraint with a large constant has no answer");
        }
        for (auto const &m : out.models) {
            auto val = [&](VarForm const *x) -> std::optional<i128> {
                if (x == nullptr) {
                    return 0;
                }
                auto it = m.ival.find(x->name);
                if (it == m.ival.end()) {
                    return std::nullopt;
                }
                return it->second;
            };
            auto x = val(u);
            auto y = val(v);
            if (!x || !y) {
                violate("variable without value");
            }
            bool holds = relEval(rel, *x - *y, k);
            bool truth = !body || std::find(m.atoms.begin(), m.atoms.end(), "b") != m.atoms.end();
            if (body ? holds != truth : !holds) {
                violate("value " + dec(*x - *y) + " reported for a constraint with constant " + dec(k));
            }
        }
        return;
    }
    std::map<std::string, int> got;
    for (auto const &m : out.models) {
        std::string key;
        bool b = false;
        for (auto const &a : m.atoms) {
            if (a.rfind("p(", 0) == 0) {
                key = a;
            }
            if (a == "b") {
                b = true;
            }
        }
        got[key + (b ? " b" : "")]++;
    }
    std::map<std::string, int> exp;
    for (size_t i = 0; i < ts.size(); ++i) {
        bool holds = relEval(rel, nv == 0 ? 0 : ts[i], k);
        if (body) {
            exp["p(" + std::to_string(i) + ")" + (holds ? " b" : "")]++;
        } else if (holds) {
            exp["p(" + std::to_string(i) + ")"]++;
        }
    }
    c.count("probes", ts.size());
    if (exp != got) {
        std::ostringstream o;
        o << "constraint '" << atom << "' misinterpreted; expected {";
        for (auto const &[x, n] : exp) {
            o << " " << x << ":" << n;
        }
        o << " } got {";
        for (auto const &[x, n] : got) {
            o << " " << x << ":" << n;
        }
        violate(o.str() + " }");
    }
}

namespace {

struct Bad {
    std::string category;
    std::string atom;
    bool bodyOnly{false};
    Opts opts;
};

std::string someExpr(Rng &rng, std::string const &v) {
    switch (rng.range(0, 5)) {
        case 0: return "1 * " + v;
        case 1: return v + " + 3";
        case 2: return "- (- " + v + ")";
        case 3: return "(" + v + ")";
        default: return v;
    }
}

Bad malformed(Rng &rng) {
    auto vs = varNames(rng, 4);
    auto const &a = vs[0];
    auto const &b = vs[1];
    auto const &d = vs[2];
    auto rel = rng.pick<std::string>({"<=", "<", ">=", ">", "=", "!="});
    auto k = std::to_string(rng.range(0, 9));
    auto A = someExpr(rng, a);
    auto B = someExpr(rng, b);
    auto D = someExpr(rng, d);
    auto diff = "(" + A + ") - (" + B + ")";
    auto at = [&](std::string const &e, std::string const &r) { return "&diff { " + e + " } " + rel + " " + r; };
    switch (rng.range(0, 31)) {
        case 0: return {"non-linear", at("(" + A + ") * (" + B + ")", k), false, {}};
        case 1: return {"non-linear", at(a, "(" + b + ") * (" + d + ")"), false, {}};
        case 2: return {"non-unit coefficient", at(rng.pick<std::string>({"2", "3", "-2", "7"}) + " * (" + A + ")", k), false, {}};
        case 3: return {"non-unit coefficient", at(a + " + " + a + " - " + b, k), false, {}};
        case 4: return {"non-unit coefficient", at("2 * (" + diff + ")", k), false, {}};
        case 5: return {"positive sum", at(a + " + " + b, k), false, {}};
        case 6: return {"positive sum", at("- (" + A + ")", B), false, {}}; // -a <= b
        case 7: return {"three variables", at(diff + " + (" + D + ")", k), false, {}};
        case 8: return {"three variables", at(diff, D), false, {}};
        case 9: return {"no element", "&diff { } " + rel + " " + k, false, {}};
        case 10: {
            auto snd = rng.pick<std::string>({D, diff, D + " : #false", diff + " : e(1)", "0", D + " : e(9)", k});
            return {"several elements", "&diff { " + diff + rng.pick<std::string>({"", "", " : #false", " : e(1)"}) +
                    rng.pick<std::string>({" ; ", ";"}) + snd + " } " + rel + " " + k, false, {}};
        }
        case 11: return {"tuple element", "&diff { " + diff + rng.pick<std::string>({", ", ","}) + rng.pick<std::string>({k, D, "0", "1, 2", diff}) + " } " + rel + " " + k, false, {}};
        case 12: return {"condition", "&diff { " + diff + " : " +
                    rng.pick<std::string>({"c", "e(1)", "e(X)", "not c", "not e(9)", "#true", "1 = 1", "1 < 2", "c, d", "e(1), e(2)",
                                           "X = 1", "not not e(1)", "#false", "e(9)", "not e(1)"}) +
                    " } " + rel + " " + k, false, {}};
        case 31: {
            // coefficients that are fine modulo powers of two
            auto m = static_cast<i128>(1) << rng.pick({8, 16, 31, 32, 32, 32, 32, 33, 63, 64});
            auto f = m * rng.pick({1, 1, 1, -1, 2, 3}) + rng.pick({-1, 0, 1});
            return {"coefficient out of range", at(bigCoef(rng, a, f) + (rng.chance(70) ? " - " + b : ""), k), false, {}};
        }
        case 13: return {"missing guard", "&diff { " + diff + " }", false, {}};
        case 14: return {"division by zero", at(diff, k + " / " + rng.pick<std::string>({"0", "(1 - 1)", "(0 * 3)"})), false, {}};
        case 15: return {"division by zero", at("x(" + k + " / 0) - " + b, k), false, {}};
        case 16: return {"ill-typed arithmetic", at("(" + A + ") / 2 - " + b, k), false, {}};
        case 17: return {"ill-typed arithmetic", at("f(" + rng.pick<std::string>({"a", "(1,2)", "\"s\"", "g(1)"}) +
                             rng.pick<std::string>({" / 2", " + 1", " - 1", " * 2"}) + ") - " + b, k), false, {}};
        case 18: return {"ill-typed arithmetic", at("f(- " + rng.pick<std::string>({"(1,2)", "\"s\""}) + ") - " + b, k), false, {}};
        case 19: return {"non-integer number",
                    at(diff, "\"" + rng.pick<std::string>({"1.5", "0.1", "-2.25", "1e-3", "inf", "nan", "-inf", "1e10", "1e300",
                                                         "2147483647.5", "0x1.8p0"}) + "\""), false, {}};
        case 20: return {"real mode body constraint", at(diff, k), true, {{"rdl", "yes"}}};
        case 21: return {"unknown operator", at(a + rng.pick<std::string>({" ** ", " \\ ", " ? ", " & ", " .. ", " ++ "}) + b, k), false, {}};
        case 22: return {"unknown operator", at(diff, k + rng.pick<std::string>({" ** ", " \\ ", " .. ", " # "}) + "2"), false, {}};
        case 23: return {"unknown operator", at("+ " + a + " - " + b, k), false, {}};
        case 24: return {"set or list term", at(rng.pick<std::string>({"{1,2}", "[1,2]", "{}", "[]", "{" + a + "}"}) + " - " + b, k), false, {}};
        case 25: return {"set or list term", at("f([" + a + "]) - " + b, k), false, {}};
        case 26: return {"unknown relation", "&diff { " + diff + " } " + rng.pick<std::string>({"<<", "==", "=<", "<>", "~"}) + " " + k, false, {}};
        case 27: return {"unknown theory atom", "&diff(" + k + ") { " + diff + " } " + rel + " " + k, false, {}};
        case 28: return {"division of variables", at(k + " / (" + A + ") - " + b, k), false, {}};
        case 29: return {"division of variables", at(diff, "(" + d + " - " + d + ") / 2"), false, {}};
        default: return {"non-linear", at("(" + A + " - " + b + ") * (" + D + " + 2)", k), false, {}};
    }
}

//! Random theory terms.
std::string randomTerm(Rng &rng, int depth, bool inName) {
    int x = rng.range(0, 99);
    if (depth <= 0 || x < 40) {
        switch (rng.range(0, inName ? 4 : 6)) {
            case 0: return std::to_string(rng.range(0, 9));
            case 1: return rng.pick<std::string>({"a", "b"});
            case 2: return rng.pick<std::string>({"a", "b", "cC"});
            case 3: return rng.pick<std::string>({"0", "1", "2"});
            case 4: return rng.pick<std::string>({"\"s\"", "\"t u\"", "a"});
            default: return rng.pick<std::string>({"a", "b", "1"});
        }
    }
    auto sub = [&](bool n) { return randomTerm(rng, depth - 1, n); };
    if (x < 55) {
        return "(" + sub(inName) + " - " + sub(inName) + ")";
    }
    if (x < 65) {
        return "(" + sub(inName) + " + " + sub(inName) + ")";
    }
    if (x < 72) {
        return "(" + sub(inName) + " * " + sub(inName) + ")";
    }
    if (x < 76) {
        return "(" + std::to_string(rng.range(0, 9)) + " / " + rng.pick<std::string>({"0", "1", "2", "3", "a"}) + ")";
    }
    if (x < 84) {
        return "(- " + sub(inName) + ")";
    }
    if (x < 94) {
        return "f(" + sub(true) + (rng.chance(30) ? "," + sub(true) : "") + ")";
    }
    return "(" + sub(true) + "," + (rng.chance(50) ? sub(true) : "") + ")";
}

} // namespace

CHECK(C12) {
    auto &rng = c.rng;
    int kind = rng.range(0, 99);
    auto opts = randomDlOpts(rng);
    if (rng.chance(30)) {
        opts.emplace_back("shift-constraints", "yes");
    }
    std::ostringstream text;
    text << "{c;d}. e(1..2).\n";
    if (rng.chance(50)) {
        text << "&diff { u - v } <= 3 :- d.\n";
    }
    auto place = [&](std::string const &atom, bool bodyOnly) {
        int p = bodyOnly ? rng.range(4, 8) : rng.range(0, 8);
        switch (p) {
            case 0: text << atom << ".\n"; return "head fact";
            case 1: text << atom << " :- c.\n"; return "head";
            case 2: text << atom << " :- c, not d.\n"; return "head";
            case 3: text << atom << " :- X = 1..2, c.\n"; return "head";
            case 4: text << "b :- " << atom << ".\n"; return "body";
            case 5: text << "b :- c, not " << atom << ".\n"; return "body";
            case 6: text << "b :- not not " << atom << ", not d.\n"; return "body";
            case 7: text << ":- c, " << atom << ".\n"; return "constraint";
            default: text << ":- d, not " << atom << ".\n"; return "constraint";
        }
    };
    if (kind < 55) {
        auto bad = malformed(rng);
        opts.insert(opts.end(), bad.opts.begin(), bad.opts.end());
        auto where = place(bad.atom, bad.bodyOnly);
        if (!bad.opts.empty()) {
            // with shifting, constraints can become heads; keep them in bodies
            opts.emplace_back("shift-constraints", "no");
        }
        c.log << "% options: " << optsStr(opts) << "\n% malformed: " << bad.category << " in " << where << "\n"
              << text.str();
        SolveOut out;
        std::string stage;
        auto err = runProgram(c, opts, {"0", "--warn=none"}, text.str(), &out, &stage);
        if (!err) {
            violate("malformed constraint accepted (" + bad.category + "): " + bad.atom + "; " +
                    std::to_string(out.models.size()) + " answers reported");
        }
        if (err->empty()) {
            violate("error without message for malformed constraint: " + bad.atom);
        }
        if (rng.chance(30)) {
            // the next program is handled as usual
            int w = rng.range(1, 3);
            std::string next = rng.pick<std::string>({"&diff { u - v } <= 0.\n", "&diff { u - v } <= 0 :- 0 = 0.\n",
                                                      "#const n = 0.\n&diff { u - v } <= n.\n"});
            next += "&diff { v - u } <= " + std::to_string(w) + ".\nb :- &diff { u - v } <= -1.\n";
            SolveOut res;
            auto ee = runProgram(c, randomDlOpts(rng), {"0", "--warn=none"}, next, &res);
            if (ee) {
                violate("well-formed program rejected after a malformed constraint: " + *ee + ": " + next);
            }
            if (res.models.size() != 2) {
                violate("wrong number of answers after a malformed constraint: " + std::to_string(res.models.size()) + ": " + next);
            }
            c.count("programs solved after a malformed constraint");
        }
        c.count("malformed: " + bad.category);
        c.count("rejected by " + stage);
        c.nontrivial(bad.atom);
        c.tags->insert(bad.category + " " + where);
        return;
    }
    std::string atom;
    if (kind < 85) {
        // random terms
        auto rel = rng.pick<std::string>({"<=", "<", ">=", ">", "=", "!="});
        atom = "&diff { " + randomTerm(rng, rng.range(1, 4), false) + " } " + rel + " " +
               randomTerm(rng, rng.range(0, 2), false);
    } else {
        auto vs = varNames(rng, 3);
        TAtom a{false, rng.range(0, 3), rng.range(0, 3), rng.pick({Rel::LE, Rel::LT, Rel::GE, Rel::GT, Rel::EQ, Rel::NE}),
                rng.range(-9, 9), {}};
        atom = renderAtom(rng, a, vs, true);
    }
    place(atom, false);
    c.log << "% options: " << optsStr(opts) << "\n" << text.str();
    std::string stage = "rewrite";
    std::optional<std::string> err;
    bool valid = true;
    bool unsure = false;
    std::string why;
    try {
        DLRun run{opts, {"0", "--warn=none"}};
        run.parse(text.str());
        stage = "ground";
        run.ground();
        {
            OutScope os;
            clingo_theory_atoms_t const *atoms{};
            size_t n{};
            Clingo::Detail::handle_error(clingo_control_theory_atoms(run.ctl().to_c(), &atoms));
            Clingo::Detail::handle_error(clingo_theory_atoms_size(atoms, &n));
            for (size_t i = 0; i < n; ++i) {
                auto g = parseAtom(atoms, static_cast<clingo_id_t>(i));
                std::string u;
                std::string v;
                i64 k = 0;
                if (!asDiff(g, u, v, k)) {
                    valid = false;
                    why = g.error;
                }
                unsure = unsure || g.overflow;
            }
        }
        stage = "solve";
        run.solve();
    } catch (Violation const &) {
        throw;
    } catch (std::exception const &e) {
        err = e.what();
    }
    if (stage != "solve") {
        violate("constraint built from supported terms rejected by " + stage + ": " + atom + ": " + *err);
    }
    if (err && valid && !unsure) {
        violate("well-formed constraint rejected: " + atom + ": " + *err);
    }
    if (!err && !valid) {
        violate("malformed constraint accepted: " + atom + (why.empty() ? " (not a difference constraint)" : ": " + why));
    }
    c.count(valid ? "well-formed constraints accepted" : "random malformed constraints rejected");
    c.nontrivial(atom);
}

} // namespace M
