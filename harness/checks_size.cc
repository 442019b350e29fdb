// C26: large instances whose answers are known by construction.
#include "dlmon.hh"

#include <algorithm>
#include <numeric>
#include <sys/resource.h>

namespace M {

namespace {

struct E {
    int u, v;
    i64 w;
    int cond; //!< the constraint u - v <= w is in force if atom a(cond) is true or cond is 0
};

std::string name(int i) { return "x(" + std::to_string(i) + ")"; }

template <class T> void shuffle(Rng &rng, std::vector<T> &v) {
    for (size_t i = v.size(); i > 1; --i) {
        std::swap(v[i - 1], v[static_cast<size_t>(rng.next() % i)]);
    }
}

i64 valueOf(Model const &m, int i) {
    auto it = m.ival.find(name(i));
    if (it == m.ival.end()) {
        violate("variable " + name(i) + " has no value");
    }
    return it->second;
}

void verify(Model const &m, std::vector<E> const &edges, std::vector<char> const &on) {
    for (auto const &e : edges) {
        if (e.cond == 0 || on[e.cond] != 0) {
            auto u = e.u < 0 ? 0 : valueOf(m, e.u);
            auto v = e.v < 0 ? 0 : valueOf(m, e.v);
            if (u - v > e.w) {
                violate("constraint " + (e.u < 0 ? "0" : name(e.u)) + " - " + (e.v < 0 ? "0" : name(e.v)) + " <= " +
                        std::to_string(e.w) + " is in force but the values are " + std::to_string(u) + " and " + std::to_string(v));
            }
        }
    }
}

std::vector<char> trueAtoms(Model const &m, int n) {
    std::vector<char> on(n + 1, 0);
    for (auto const &a : m.atoms) {
        if (a.rfind("a(", 0) == 0) {
            on[std::stoi(a.substr(2))] = 1;
        }
    }
    return on;
}

std::string render(std::vector<E> const &edges) {
    std::string p;
    auto t = [](int i) { return i < 0 ? std::string("z") : std::to_string(i); };
    for (auto const &e : edges) {
        p += (e.cond == 0 ? "e(" : "c(" + std::to_string(e.cond) + ",") + t(e.u) + "," + t(e.v) + "," + std::to_string(e.w) + ").\n";
    }
    p += "&diff { x(U) - x(V) } <= W :- e(U,V,W), U != z, V != z.\n"
         "&diff { x(U) } <= W :- e(U,z,W).\n"
         "&diff { 0 - x(V) } <= W :- e(z,V,W).\n"
         "&diff { x(U) - x(V) } <= W :- c(A,U,V,W), a(A).\n"
         "{ a(A) } :- c(A,_,_,_).\n"
         "#defined e/3. #defined c/4.\n";
    return p;
}

//! Options with which the theory takes about linear time per constraint at most.
Opts options(Rng &rng, bool cheap) {
    Opts o;
    o.emplace_back("propagate", cheap ? rng.pick<std::string>({"no", "inverse", "partial", "partial+"})
                                      : rng.pick<std::string>({"no", "inverse", "partial", "partial+", "zero", "full"}));
    if (rng.chance(40)) {
        o.emplace_back("sort-edges",
                       rng.pick<std::string>({"no", "weight", "weight-reversed", "potential", "potential-reversed"}));
    }
    if (rng.chance(30)) {
        o.emplace_back("compute-components", rng.pick<std::string>({"no", "yes"}));
    }
    if (rng.chance(20)) {
        o.emplace_back("add-mutexes", rng.pick<std::string>({"2,100", "3,1000"}));
    }
    if (rng.chance(25)) {
        o.emplace_back("dl-heuristic", rng.pick<std::string>({"min", "max"}));
    }
    return o;
}

SolveOut solve(Case &c, Opts const &opts, std::vector<std::string> args, std::string const &program, DLRun **keep,
               std::unique_ptr<DLRun> &run) {
    args.insert(args.begin(), "--warn=none");
    c.log << "% options: " << optsStr(opts) << "\n% clingo: " << join(args) << "\n" << program.substr(0, 600) << "\n";
    run = std::make_unique<DLRun>(opts, args);
    run->withStats = true;
    run->parse(program);
    run->ground();
    auto out = run->solve();
    if (keep != nullptr) {
        *keep = run.get();
    }
    c.count("solve calls");
    c.count("models", out.models.size());
    return out;
}

void expect(SolveOut const &out, bool sat) {
    if (out.sat != sat || out.unsat == sat || (sat && out.models.empty())) {
        violate(std::string("the instance is ") + (sat ? "satisfiable" : "unsatisfiable") + " but the result is sat=" +
                std::to_string(static_cast<int>(out.sat)) + " unsat=" + std::to_string(static_cast<int>(out.unsat)));
    }
}

} // namespace

CHECK(C26) {
    auto &rng = c.rng;
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
    int big = 4000;
#else
    int big = 66000;
#endif
#else
    int big = 66000;
#endif
    // recursion whose depth depends on the size of the instance would not fit
    rlimit limit{};
    getrlimit(RLIMIT_STACK, &limit);
    limit.rlim_cur = 2 << 20;
    setrlimit(RLIMIT_STACK, &limit);
    int kind = rng.pick({0, 0, 0, 0, 1, 2, 2, 3, 4, 5, 6, 6, 8, 8, 9});
    std::unique_ptr<DLRun> run;
    std::vector<E> edges;
    if (kind == 0) {
        // long chains and trees
        int n = big + rng.range(0, 3000);
        i64 scale = rng.pick<i64>({1, 1, 100, 1000000000 / n / 5});
        std::vector<int> ids(n);
        std::iota(ids.begin(), ids.end(), 0);
        if (rng.chance(50)) {
            shuffle(rng, ids);
        }
        int shape = rng.range(0, 5);
        std::vector<i64> h(n, 0);
        for (int i = 1; i < n; ++i) {
            int p = shape < 3 ? i - 1 : shape == 3 ? 0 : rng.range(std::max(0, i - 1000), i - 1);
            h[i] = h[p] + scale * rng.range(-3, 3);
            if (shape == 3 || rng.chance(shape < 3 ? 0 : 50)) {
                // an additional edge below makes sure that the vertices form one component
                edges.push_back({ids[i], ids[p], h[i] - h[p], 0});
            } else {
                edges.push_back({ids[p], ids[i], h[p] - h[i], 0});
            }
        }
        if (shape == 3 && rng.chance(50)) {
            for (auto &e : edges) {
                std::swap(e.u, e.v);
                e.w = -e.w;
            }
        }
        for (int i = 0, m = rng.range(0, n / 2); i < m; ++i) {
            int u = rng.range(0, n - 1);
            int v = std::min(n - 1, std::max(0, u + rng.range(-200, 200)));
            if (u != v) {
                edges.push_back({ids[u], ids[v], h[u] - h[v] + scale * rng.range(0, 4), 0});
            }
        }
        if (shape >= 3) {
            // changes of the value of the root affect all variables of a star
            for (int i = 0, m = rng.range(0, 5); i < m; ++i) {
                int u = rng.range(1, n - 1);
                auto w = h[u] - h[0] + scale * rng.range(0, 4);
                rng.chance(50) ? edges.push_back({ids[u], ids[0], w, i + 1}) : edges.push_back({ids[0], ids[u], -w + scale * 4, i + 1});
            }
            shuffle(rng, edges);
            auto out = solve(c, options(rng, true), {"1", "--sign-def=pos"}, render(edges), nullptr, run);
            expect(out, true);
            verify(out.models[0], edges, trueAtoms(out.models[0], n));
            c.count("trees");
            c.nontrivial(c.log.str());
            return;
        }
        // close a long cycle
        int d = rng.range(-1, 1);
        int i = rng.range(0, n / 4);
        int j = rng.range(n / 2, n - 1);
        edges.push_back({ids[j], ids[i], h[j] - h[i] + d, 0});
        if (rng.chance(50)) {
            shuffle(rng, edges);
        }
        auto out = solve(c, options(rng, true), {"1"}, render(edges), nullptr, run);
        expect(out, d >= 0);
        if (d >= 0) {
            verify(out.models[0], edges, {});
        }
        c.count("chains");
    } else if (kind == 1) {
        // many components
        int n = big + 2 * rng.range(0, 1000);
        int per = rng.pick({2, 2, 3, 10});
        int comps = (per == 2 ? 2 : 1) * n / per;
        for (int k = 0; k < comps; ++k) {
            for (int i = 1; i < per; ++i) {
                edges.push_back({k * per + i - 1, k * per + i, rng.range(-20, 20), 0});
            }
            if (rng.chance(10)) {
                edges.push_back({k * per, -1, rng.range(-20, 20), 0});
            }
        }
        shuffle(rng, edges);
        auto opts = options(rng, false);
        DLRun *r = nullptr;
        auto out = solve(c, opts, {"1", "--stats"}, render(edges), &r, run);
        expect(out, true);
        verify(out.models[0], edges, {});
        auto st = readStats(r->ctl(), "user_step");
        bool cc = true;
        for (auto const &[k, v] : opts) {
            cc = cc && (k != "compute-components" || v != "no");
        }
        auto ccs = st.values["CCs"];
        if (!st.present || ccs != (cc ? comps : 0)) {
            violate("there are " + std::to_string(comps) + " components but " + std::to_string(ccs) + " are reported");
        }
        c.count("components", comps);
    } else if (kind == 2) {
        // many decision levels
        // Note: the theory stores changed values per level, so that the paths should not be too long
        int n = big + rng.range(0, 3000);
        int len = rng.pick({2, 10, 50});
        int blocks = n / len;
        for (int b = 0; b < blocks; ++b) {
            int o = b * len;
            for (int i = 1; i < len; ++i) {
                edges.push_back({o + i - 1, o + i, -1, o + i});
            }
            edges.push_back({o + len - 1, o, len - 1 - (b % 64 == 0 ? rng.range(1, 2) : 0), 0});
        }
        if (rng.chance(50)) {
            shuffle(rng, edges);
        }
        auto out = solve(c, options(rng, true), {"1", "--sign-def=pos", rng.chance(50) ? "--heuristic=Vmtf" : "--heuristic=Vsids", "--restarts=no"},
                         render(edges), nullptr, run);
        expect(out, true);
        auto on = trueAtoms(out.models[0], n);
        verify(out.models[0], edges, on);
        auto num = std::count(on.begin(), on.end(), 1);
        c.count("decisions", num);
    } else if (kind == 3) {
        // many constraints over the same variables
        int n = rng.range(100, 250);
        i64 scale = rng.pick<i64>({1, 7, 1000000});
        std::vector<int> ks(n);
        std::iota(ks.begin(), ks.end(), -n / 2);
        shuffle(rng, ks);
        std::string p;
        for (auto k : ks) {
            p += "k(" + std::to_string(k) + ").\n";
        }
        bool zero = rng.chance(30);
        p += "b(K) :- &diff { x" + std::string(zero ? "" : " - y") + " } <= " + std::to_string(scale) + "*K, k(K).\n";
        auto out = solve(c, options(rng, false), {"0"}, p, nullptr, run);
        expect(out, true);
        if (static_cast<int>(out.models.size()) != n + 1) {
            violate(std::to_string(n + 1) + " answers expected but got " + std::to_string(out.models.size()));
        }
        std::set<size_t> sizes;
        for (auto const &m : out.models) {
            auto diff = m.ival.at("x") - (zero ? 0 : m.ival.at("y"));
            std::set<std::string> atoms(m.atoms.begin(), m.atoms.end());
            size_t size = 0;
            for (auto k : ks) {
                bool b = atoms.count("b(" + std::to_string(k) + ")") > 0;
                size += b ? 1 : 0;
                if (b != (diff <= scale * k)) {
                    violate("b(" + std::to_string(k) + ") is " + (b ? "true" : "false") + " but the difference is " +
                            std::to_string(diff));
                }
            }
            sizes.insert(size);
        }
        if (static_cast<int>(sizes.size()) != n + 1) {
            violate("answers repeated");
        }
        c.count("parallel constraints", n);
    } else if (kind == 4) {
        // two-coloring of a path
        int n = rng.range(500, 2500) / (big < 10000 ? 4 : 1);
        std::string p = "#const n=" + std::to_string(n) + ".\n&diff { x(I) } <= 1 :- I=1..n.\n&diff { x(I) } >= 0 :- I=1..n.\n"
                        "&diff { x(I) - x(I+1) } != 0 :- I=1..n-1.\n";
        auto out = solve(c, options(rng, false), {"0"}, p, nullptr, run);
        expect(out, true);
        std::set<i64> first;
        for (auto const &m : out.models) {
            auto x = valueOf(m, 1);
            first.insert(x);
            for (int i = 1; i <= n; ++i) {
                if (valueOf(m, i) != (i % 2 == 1 ? x : 1 - x)) {
                    violate("wrong value for " + name(i));
                }
            }
        }
        if (out.models.size() != 2 || first.size() != 2 || *first.begin() != 0 || *first.rbegin() != 1) {
            violate("two answers expected but got " + std::to_string(out.models.size()));
        }
        c.count("disequalities", n);
    } else if (kind == 5) {
        // one machine, tight bound
        int n = rng.range(10, big < 10000 ? 16 : 24);
        i64 sum = 0;
        std::string p;
        std::vector<int> dur;
        for (int i = 0; i < n; ++i) {
            dur.push_back(rng.range(1, 50));
            sum += dur.back();
            p += "d(" + std::to_string(i) + "," + std::to_string(dur.back()) + ").\n";
        }
        p += "1 { b(I,J); b(J,I) } 1 :- d(I,_), d(J,_), I<J.\n"
             "&diff { x(I) - x(J) } <= -D :- b(I,J), d(I,D).\n"
             "&diff { 0 - x(I) } <= 0 :- d(I,_).\n"
             "&diff { x(I) } <= " +
             std::to_string(sum) + "-D :- d(I,D).\n";
        auto out = solve(c, options(rng, false), {"1"}, p, nullptr, run);
        expect(out, true);
        std::vector<std::pair<i64, i64>> slots;
        for (int i = 0; i < n; ++i) {
            slots.emplace_back(valueOf(out.models[0], i), dur[i]);
        }
        std::sort(slots.begin(), slots.end());
        i64 t = 0;
        for (auto const &[s, d] : slots) {
            if (s != t) {
                violate("the schedule is not tight or overlaps at " + std::to_string(s));
            }
            t += d;
        }
        c.count("operations", n);
    } else if (kind == 6) {
        // many constraints that depend on the same atom
        int n = big + rng.range(0, 1000);
        std::vector<int> ids(n);
        std::iota(ids.begin(), ids.end(), 0);
        shuffle(rng, ids);
        i64 total[2] = {0, 0};
        std::vector<E> side[2];
        bool sat[2] = {rng.chance(60), rng.chance(60)};
        for (int k = 0; k < 2; ++k) {
            for (int i = 1; i < n; ++i) {
                i64 w = rng.range(-3, 3);
                total[k] += w;
                side[k].push_back({ids[i - 1], ids[i], w, 0});
            }
            side[k].push_back({ids[n - 1], ids[0], -total[k] - (sat[k] ? 0 : 1), 0});
            shuffle(rng, side[k]);
        }
        std::string p;
        for (int k = 0; k < 2; ++k) {
            for (auto const &e : side[k]) {
                p += "e" + std::to_string(k) + "(" + std::to_string(e.u) + "," + std::to_string(e.v) + "," + std::to_string(e.w) + ").\n";
            }
        }
        p = "{ a(1) }.\n&diff { x(U) - x(V) } <= W :- e0(U,V,W), not a(1).\n&diff { x(U) - x(V) } <= W :- e1(U,V,W), a(1).\n" + p;
        auto out = solve(c, options(rng, true), {"0"}, p, nullptr, run);
        expect(out, sat[0] || sat[1]);
        std::set<bool> seen;
        for (auto const &m : out.models) {
            bool a = trueAtoms(m, 1)[1] != 0;
            seen.insert(a);
            if (!sat[a ? 1 : 0]) {
                violate("an answer violates the constraints of one of its atoms");
            }
            verify(m, side[a ? 1 : 0], {});
        }
        if (static_cast<int>(out.models.size()) != (sat[0] ? 1 : 0) + (sat[1] ? 1 : 0) || seen.size() != out.models.size()) {
            violate("wrong number of answers: " + std::to_string(out.models.size()));
        }
        c.count("constraints of one atom", 2 * n);
    } else if (kind == 8) {
        // detection of mutual exclusion with a large queue
        int n = big + rng.range(0, 1000);
        int num = rng.range(2, 5);
        std::string p = "&diff { hub - x(I) } <= 0 :- I=0.." + std::to_string(n) + ".\n";
        p += "{ s; t; a(1.." + std::to_string(num) + ") }.\n";
        std::vector<i64> ws;
        std::string s = "&diff { u - hub } <= 1 :- s.\n";
        std::string t = "&diff { mid - u } <= 2 :- t.\n";
        int first = rng.range(0, 2);
        p += first == 0 ? s : first == 1 ? t : "";
        int neg = 0;
        for (int i = 1; i <= num; ++i) {
            i64 w = rng.range(-6, 0);
            ws.push_back(w);
            neg += w < -3 ? 1 : 0;
            p += "&diff { x(" + std::to_string(rng.chance(80) ? n - rng.range(0, 200) : rng.range(0, n)) + ") - mid } <= " + std::to_string(w) +
                 " :- a(" + std::to_string(i) + ").\n";
        }
        p += first != 0 ? s : "";
        p += first != 1 ? t : "";
        auto opts = options(rng, true);
        opts.erase(std::remove_if(opts.begin(), opts.end(), [](auto const &o) { return o.first == "add-mutexes"; }), opts.end());
        opts.emplace_back("add-mutexes", "5," + std::to_string(4 * n));
        auto out = solve(c, opts, {"0"}, p, nullptr, run);
        expect(out, true);
        size_t expected = (static_cast<size_t>(3) << num) + (static_cast<size_t>(1) << (num - neg));
        if (out.models.size() != expected) {
            violate(std::to_string(expected) + " answers expected but got " + std::to_string(out.models.size()));
        }
        for (auto const &m : out.models) {
            auto on = trueAtoms(m, num);
            std::set<std::string> atoms(m.atoms.begin(), m.atoms.end());
            for (int i = 1; i <= num; ++i) {
                if (on[i] != 0 && ws[i - 1] < -3 && atoms.count("s") > 0 && atoms.count("t") > 0) {
                    violate("an answer with a negative cycle");
                }
            }
        }
        c.count("mutual exclusions", neg);
    } else {
        // growing in many steps
        int steps = rng.range(150, 400) / (big < 10000 ? 2 : 1);
        auto opts = options(rng, false);
        std::vector<std::string> args{"1", "--warn=none"};
        c.log << "% options: " << optsStr(opts) << "\n% steps: " << steps << "\n";
        run = std::make_unique<DLRun>(opts, args);
        run->parse("#program step(t).\n#external q(t).\n&diff { x(t-1) - x(t) } <= -1. &diff { x(t) - x(0) } <= t+t/7 :- q(t).\n"
                   "&diff { x(t) - x(0) } <= t-1 :- not q(t), never.\n#external never.\n#program base.\n");
        for (int t = 1; t <= steps; ++t) {
            run->ground({{"step", {Clingo::Number(t)}}});
            bool q = rng.chance(70);
            run->ctl().assign_external(Clingo::Function("q", {Clingo::Number(t)}), q ? Clingo::TruthValue::True : Clingo::TruthValue::False);
            edges.push_back({t - 1, t, -1, 0});
            if (q) {
                edges.push_back({t, 0, t + t / 7, 0});
            }
            if (t % 10 != 0 && t != steps && rng.chance(70)) {
                continue;
            }
            auto out = run->solve();
            expect(out, true);
            verify(out.models[0], edges, {});
            if (static_cast<int>(out.models[0].ival.size()) != t + 1) {
                violate("there are values for " + std::to_string(out.models[0].ival.size()) + " variables in step " + std::to_string(t));
            }
            c.count("solve calls");
        }
        c.count("steps", steps);
    }
    c.nontrivial(c.log.str());
}

} // namespace M
