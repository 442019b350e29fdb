// C15: configuration of the theory.
#include "dlmon.hh"

#include <algorithm>
#include <cctype>
#include <fcntl.h>
#include <unistd.h>

namespace M {

namespace {

//! Model of the documented configuration.
struct Conf {
    std::array<std::map<unsigned, std::string>, 4> perThread; //!< options with an optional thread
    std::array<std::string, 4> global{"no", "0", "0", "weight"};
    std::string mutexes{"0"};
    std::string decide{"no"};
    bool rdl{false}, shift{false}, cc{true};

    std::string get(int i, unsigned t) const {
        auto it = perThread[i].find(t);
        return it != perThread[i].end() ? it->second : global[i];
    }
};

char const *const threadKeys[] = {"propagate", "propagate-root", "propagate-budget", "sort-edges"};

std::string spell(Rng &rng, std::string v) {
    if (rng.chance(40)) {
        for (auto &c : v) {
            if (rng.chance(50)) {
                c = static_cast<char>(toupper(c));
            }
        }
    }
    return v;
}

std::string validValue(Rng &rng, int key) {
    switch (key) {
        case 0: {
            return rng.pick<std::string>({"no", "inverse", "partial", "partial+", "zero", "full"});
        }
        case 1: {
            return rng.pick<std::string>({"0", "1", "2", "3", "5", "00", "0002", "4294967295", "4294967296", "4294967297",
                                          "18446744073709551615"});
        }
        case 2: {
            return rng.pick<std::string>({"0", "1", "2", "10", "50", "050", "100000", "4294967296",
                                          "18446744073709551615"});
        }
        default: {
            return rng.pick<std::string>({"no", "weight", "weight-reversed", "potential", "potential-reversed"});
        }
    }
}

//! Canonical form of numbers.
std::string canon(std::string const &v) {
    if (v.empty() || std::isdigit(static_cast<unsigned char>(v[0])) == 0) {
        return v;
    }
    auto pos = v.find_first_not_of('0');
    return pos == std::string::npos ? "0" : v.substr(pos);
}

std::string invalidThread(Rng &rng) {
    return rng.pick<std::string>({",", ",64", ",65", ",x", ",-1", ",0x1", ",0,1", ", 0", ",0 ", ",1,", ",4294967296",
                                  ",18446744073709551616", ",+1", ",1.0", " ", "x", ";0", ":1", ",,", ",full", ",184467440737095516160",
                                  ",18446744073709551617", ",100000000000000000000000"});
}

std::string invalidNumber(Rng &rng) {
    return rng.pick<std::string>({"", "-1", "+1", "1.5", " 1", "1 ", "x", "1x", "0x10", "18446744073709551616",
                                  "18446744073709551617", "36893488147419103232", "99999999999999999999", "184467440737095516160",
                                  "100000000000000000000000000", "30000000000000000000", "20000000000000000000",
                                  "55340232221128654848", "no", ",1", "-0", "1e3", "one", "1;2", "\"1\""});
}

std::string invalidWord(Rng &rng, int key) {
    auto w = validValue(rng, key);
    switch (rng.range(0, 7)) {
        case 0: return "";
        case 1: return " " + w;
        case 2: return w + rng.pick<std::string>({"x", "++", "-", "ly", "0", "="});
        case 3: return w.substr(0, w.size() - 1) + (w == "partial+" ? "*" : "");
        case 4: return rng.pick<std::string>({"yes", "off", "1", "strong", "weak", "trivial", "check", "rev", "weights",
                                              "reversed", "potentialreversed", "fullzero", "partial++", "n", "f", "-"});
        case 5: return w + " ";
        case 6: return "," + std::to_string(rng.range(0, 3));
        default: return w + invalidThread(rng);
    }
}

bool wordOk(int key, std::string const &v) {
    std::string l;
    for (auto c : v) {
        l += static_cast<char>(tolower(c));
    }
    auto pos = l.find(',');
    auto w = l.substr(0, pos);
    std::set<std::string> words;
    if (key == 0) {
        words = {"no", "inverse", "partial", "partial+", "zero", "full"};
    } else {
        words = {"no", "weight", "weight-reversed", "potential", "potential-reversed"};
    }
    if (words.count(w) == 0) {
        return false;
    }
    if (pos == std::string::npos) {
        return true;
    }
    auto t = l.substr(pos + 1);
    if (t.empty() || t.find_first_not_of("0123456789") != std::string::npos) {
        return false;
    }
    t = canon(t);
    return t.size() <= 2 && std::stoi(t) < 64;
}

struct Op {
    std::string key, value;
    bool valid;
};

//! Random operation; updates the model if valid.
Op randomOp(Rng &rng, Conf &conf, int threads, bool cli, std::set<std::string> &used) {
    while (true) {
        int k = rng.range(0, 8);
        if (k <= 3) {
            bool word = k == 0 || k == 3;
            if (!rng.chance(cli ? 3 : 30)) {
                auto v = validValue(rng, k);
                // options without thread come first
                bool global = conf.perThread[k].empty() && rng.chance(50);
                if (global) {
                    conf.global[k] = canon(v);
                    return {threadKeys[k], spell(rng, v), true};
                }
                unsigned t = rng.chance(75) ? rng.range(0, std::max(1, threads - 1)) : rng.pick({2, 3, 7, 31, 62, 63});
                conf.perThread[k][t] = canon(v);
                return {threadKeys[k],
                        spell(rng, v) + "," + (rng.chance(10) ? "0" : "") + std::to_string(t), true};
            }
            std::string v;
            if (word) {
                do {
                    v = invalidWord(rng, k);
                } while (wordOk(k, v));
            } else {
                v = rng.chance(60) ? invalidNumber(rng) : validValue(rng, k) + invalidThread(rng);
            }
            return {threadKeys[k], v, false};
        }
        bool ok = !rng.chance(cli ? 3 : 30);
        switch (k) {
            case 4: {
                if (ok) {
                    auto size = rng.pick<std::string>({"0", "1", "2", "3", "03", "4", "10"});
                    if (rng.chance(50)) {
                        conf.mutexes = canon(size) + "," + std::to_string(10 * std::stoi(size));
                        return {"add-mutexes", size, true};
                    }
                    auto cut = rng.pick<std::string>({"0", "1", "5", "20", "100", "4294967301", "0100"});
                    conf.mutexes = canon(size) + "," + canon(cut);
                    return {"add-mutexes", size + "," + cut, true};
                }
                return {"add-mutexes",
                        rng.chance(40) ? invalidNumber(rng)
                                       : rng.pick<std::string>({"2,", "2,x", "3,1,1", "3x", "3 ", "2,-1", "2, 3", "2;3",
                                                                "2,3,", "3,1x", "2,18446744073709551616",
                                                                "2,99999999999999999999", "3,,1", "5.5", "4.", "2:10"}),
                        false};
            }
            case 5: {
                if (cli && used.count("dl-heuristic") > 0) {
                    continue;
                }
                used.insert("dl-heuristic");
                if (ok) {
                    auto v = rng.pick<std::string>({"no", "none", "min", "max"});
                    conf.decide = v == "none" ? "no" : v;
                    return {"dl-heuristic", spell(rng, v), true};
                }
                return {"dl-heuristic",
                        rng.pick<std::string>({"", "mi", "minx", "min,0", "max,1", " min", "yes", "0", "1", "off", "minmax",
                                               "maximum", "min ", "n"}),
                        false};
            }
            default: {
                char const *name = k == 6 ? "rdl" : k == 7 ? "shift-constraints" : "compute-components";
                if (cli && used.count(name) > 0) {
                    continue;
                }
                used.insert(name);
                bool &target = k == 6 ? conf.rdl : k == 7 ? conf.shift : conf.cc;
                if (cli || ok) {
                    // Note: real numbers exclude some constraints
                    bool val = rng.chance(k == 6 ? 25 : 50);
                    target = val;
                    auto v = val ? rng.pick<std::string>({"yes", "on", "1"}) : rng.pick<std::string>({"no", "off", "0"});
                    return {name, spell(rng, v), true};
                }
                return {name,
                        rng.pick<std::string>({"", "2", "y", "n", "true", "false", "yes ", " no", "yes,0", "01", "offf",
                                               "10", "o", "-1", "on,1", "noo"}),
                        false};
            }
        }
    }
}

struct Observed {
    u64 trace{0};
    Keys models;
    DLStats stats;
    std::string shifted;
    bool sawDouble{false}, sawInt{false};
    u64 decides{0}, clauses{0};
    std::vector<std::pair<int, std::string>> modelThreads;
};

//! Run a program with a theory that has been configured.
void observe(DLRun &run, Mon &mon, std::string const &program, Observed &obs) {
    OutScope os;
    run.withStats = true;
    run.parse(program);
    // check how integrity constraints are rewritten
    Clingo::AST::parse_string(":- &diff { shift_x - shift_y } <= 3, q.", [&](Clingo::AST::Node const &n) {
        struct Data {
            std::string res;
        } data;
        Clingo::Detail::handle_error(clingodl_rewrite_ast(
            run.theory, n.to_c(),
            [](clingo_ast_t *ast, void *d) {
                clingo_ast_acquire(ast);
                Clingo::AST::Node node{ast};
                std::ostringstream out;
                out << node;
                static_cast<Data *>(d)->res += out.str() + "\n";
                return true;
            },
            &data));
        if (data.res.find("shift_x") != std::string::npos) {
            obs.shifted = data.res;
        }
    });
    run.ground();
    auto out = run.solve();
    obs.trace = mon.trace;
    obs.decides = mon.nDecide;
    obs.clauses = mon.nClauses;
    for (auto const &m : out.models) {
        std::string k = join(m.atoms);
        for (auto const &[n, v] : m.ival) {
            k += " " + n + "=" + std::to_string(v);
            obs.sawInt = true;
        }
        for (auto const &[n, v] : m.dval) {
            k += " " + n + "=" + std::to_string(v);
            obs.sawDouble = true;
        }
        obs.models[k]++;
    }
    obs.stats = readStats(run.ctl(), "user_step");
    if (!obs.stats.present) {
        violate("no statistics of the theory were reported");
    }
}

//! Application configured on the command line.
class ConfApp : public Clingo::Application {
  public:
    clingodl_theory_t *theory{nullptr};
    Mon &mon;
    std::string const &program;
    Observed &obs;
    bool ran{false};
    std::string error;

    ConfApp(Mon &m, std::string const &p, Observed &o) : mon{m}, program{p}, obs{o} {
        Clingo::Detail::handle_error(clingodl_create(&theory));
    }
    ~ConfApp() override { clingodl_destroy(theory); }
    void register_options(Clingo::ClingoOptions &options) override {
        Clingo::Detail::handle_error(clingodl_register_options(theory, options.to_c()));
    }
    void validate_options() override { Clingo::Detail::handle_error(clingodl_validate_options(theory)); }
    void main(Clingo::Control &ctl, Clingo::StringSpan files) override {
        static_cast<void>(files);
        ran = true;
        try {
            DLRun run{theory, ctl.to_c(), &mon};
            observe(run, mon, program, obs);
        } catch (std::exception const &e) {
            error = e.what();
        }
    }
};

struct Silence {
    int save[2];
    Silence() {
        int null = open("/dev/null", O_WRONLY);
        for (int i = 0; i < 2; ++i) {
            save[i] = dup(i + 1);
            dup2(null, i + 1);
        }
        close(null);
    }
    ~Silence() {
        fflush(stdout);
        for (int i = 0; i < 2; ++i) {
            dup2(save[i], i + 1);
            close(save[i]);
        }
    }
};

std::vector<std::string> cliArgs(std::vector<Op> const &ops) {
    std::vector<std::string> args;
    for (auto const &op : ops) {
        if (op.key == "rdl" || op.key == "shift-constraints" || op.key == "compute-components") {
            char c = static_cast<char>(tolower(op.value[0]));
            bool on = c == 'y' || c == '1' || (c == 'o' && tolower(op.value[1]) == 'n');
            args.push_back(on ? "--" + op.key : "--no-" + op.key);
        } else {
            args.push_back("--" + op.key + "=" + op.value);
        }
    }
    return args;
}

void observeCli(std::vector<std::string> args, std::string const &program, Mon &mon, Observed &obs, bool valid) {
    ConfApp app{mon, program, obs};
    args.insert(args.begin(), {"--outf=3", "-q", "-V0", "--stats"});
    std::vector<char const *> cargs;
    for (auto const &a : args) {
        cargs.push_back(a.c_str());
    }
    int ret = 0;
    {
        Silence s;
        ret = Clingo::clingo_main(app, Clingo::StringSpan{cargs.data(), cargs.size()});
    }
    if (valid) {
        if (!app.ran) {
            violate("valid options rejected on the command line");
        }
        if (!app.error.empty()) {
            violate(app.error);
        }
    } else {
        if (app.ran) {
            violate("an invalid option was accepted on the command line");
        }
        if (ret == 0 || ret == 10 || ret == 20 || ret == 30) {
            violate("exit code does not report invalid option on the command line");
        }
    }
}

char const *const offCounters[] = {"True edges", "False edges", "Edges propagated", "Cost forward", "Cost backward"};

double counter(std::map<std::string, double> const &t, char const *name) {
    auto it = t.find(name);
    if (it == t.end()) {
        violate(std::string("statistics entry '") + name + "' is missing");
    }
    return it->second;
}

//! Check that the counters of a thread fit its configuration.
void fingerprint(Case &c, Conf const &conf, unsigned t, std::map<std::string, double> const &s, char const *what) {
    auto mode = conf.get(0, t);
    auto root = conf.get(1, t);
    auto budget = conf.get(2, t);
    bool full = mode == "full" || root != "0" || budget != "0";
    bool zero = mode == "zero";
    int weak = mode == "no" ? 0 : mode == "inverse" ? 1 : mode == "partial" ? 2 : 3;
    auto where = std::string(what) + ": thread " + std::to_string(t) + " with mode " + mode + " root " + root +
                 " budget " + budget;
    if (!full && !zero) {
        for (auto const *name : offCounters) {
            if (counter(s, name) != 0) {
                violate(where + ": counter '" + name + "' is not zero");
            }
        }
        c.count("threads without full propagation");
    }
    if (weak < 1 && counter(s, "False edges (inverse)") != 0) {
        violate(where + ": counter 'False edges (inverse)' is not zero");
    }
    if (weak < 2 && counter(s, "False edges (partial)") != 0) {
        violate(where + ": counter 'False edges (partial)' is not zero");
    }
    if (weak < 3 && counter(s, "False edges (partial+)") != 0) {
        violate(where + ": counter 'False edges (partial+)' is not zero");
    }
    auto added = counter(s, "Edges added");
    if (added >= 5 && (full || zero)) {
        if (counter(s, "Edges propagated") == 0) {
            violate(where + ": no edge was propagated though " + std::to_string(added) + " edges were added");
        }
        c.count("threads with full propagation");
    }
    if (mode == "full" && counter(s, "Edges propagated") > added) {
        violate(where + ": more edges propagated than added");
    }
}

//! A message of the error reported last.
std::string lastError() {
    auto const *msg = clingo_error_message();
    return msg != nullptr ? msg : "";
}

//! Probe in which order simultaneous edges are processed.
void probeSort(Case &c) {
    // Edges e(0) and e(1) become true at the same time and each of them contradicts a fact. The one that is processed
    // first can be seen in the conflict.
    auto &rng = c.rng;
    i64 g[2], w[2], pot[2];
    do {
        for (int i = 0; i < 2; ++i) {
            g[i] = rng.range(-20, 20);
            w[i] = -g[i] - rng.range(1, 10);
            pot[i] = g[i] < 0 ? g[i] + w[i] : w[i];
        }
    } while (w[0] == w[1] || pot[0] == pot[1] || (rng.chance(80) && (w[0] < w[1]) == (pot[0] < pot[1])));
    auto mode = rng.pick<std::string>({"", "weight", "weight-reversed", "potential", "potential-reversed"});
    std::string prg;
    for (int i = 0; i < 2; ++i) {
        auto x = "x" + std::to_string(i);
        auto y = "y" + std::to_string(i);
        prg += "&diff { " + y + " - " + x + " } <= " + std::to_string(g[i]) + ".\n";
        prg += "&diff { " + x + " - " + y + " } <= " + std::to_string(w[i]) + " :- h(" + std::to_string(i) + ").\n";
    }
    prg += "{a; b}. h(0) :- a. h(1) :- a. h(0) :- b. h(1) :- b, not a.\n";
    int first = (mode.empty() || mode == "weight")  ? (w[0] < w[1] ? 0 : 1)
                : mode == "weight-reversed"         ? (w[0] < w[1] ? 1 : 0)
                : mode == "potential"               ? (pot[0] < pot[1] ? 0 : 1)
                                                    : (pot[0] < pot[1] ? 1 : 0);
    Mon mon;
    mon.trackClauses = true;
    Opts o;
    unsigned thread = rng.pick({0, 0, 1});
    if (!mode.empty()) {
        o.emplace_back("sort-edges", spell(rng, mode) + (rng.chance(40) ? "," + std::to_string(thread) : ""));
        if (thread == 1 && o.back().second.back() == '1') {
            first = w[0] < w[1] ? 0 : 1; // the default applies
        }
    }
    std::vector<std::string> args{"0", "--warn=none"};
    if (rng.chance(70)) {
        args.insert(args.end(), {"--eq=0", "--sat-prepro=no"});
    }
    if (rng.chance(50)) {
        args.emplace_back("--sign-def=pos");
    }
    c.log << "% order probe: " << optsStr(o) << "\n% clingo: " << join(args) << "\n" << prg;
    int edge[2] = {0, 0};
    u64 seen = 0;
    mon.onClause = [&](bool init, clingo_assignment_t const *ass, int const *lits, size_t n) {
        if (init) {
            return;
        }
        for (auto const &a : mon.gatoms) {
            auto it = a.terms.find("x0");
            if (it != a.terms.end() && it->second == 1) {
                edge[0] = a.lit;
            }
            it = a.terms.find("x1");
            if (it != a.terms.end() && it->second == 1) {
                edge[1] = a.lit;
            }
        }
        bool t[2];
        for (int i = 0; i < 2; ++i) {
            if (edge[i] == 0 || !clingo_assignment_is_true(ass, edge[i], &t[i]) || !t[i]) {
                return;
            }
        }
        if (edge[0] == edge[1]) {
            return;
        }
        bool in[2] = {false, false};
        for (size_t i = 0; i < n; ++i) {
            in[0] = in[0] || lits[i] == -edge[0];
            in[1] = in[1] || lits[i] == -edge[1];
        }
        ++seen;
        if (!in[first] || in[1 - first]) {
            mon.error("edges are not processed in order '" + mode + "': expected a conflict with edge " +
                      std::to_string(first));
        }
    };
    DLRun run{o, args, &mon};
    run.parse(prg);
    run.ground();
    run.solve();
    mon.throwErrors();
    c.count("order of edges probed", seen);
    if (seen > 0) {
        c.nontrivial(c.log.str());
    }
}

} // namespace

CHECK(C15) {
    auto &rng = c.rng;
    if (rng.chance(20)) {
        for (int i = 0; i < 4; ++i) {
            probeSort(c);
        }
        return;
    }
    bool cli = rng.chance(30);
    int threads = rng.chance(30) ? rng.range(2, 4) : 1;
    Conf conf;
    std::vector<Op> ops;
    std::set<std::string> used;
    bool allValid = true;
    for (int i = rng.range(1, 9); i > 0; --i) {
        ops.push_back(randomOp(rng, conf, threads, cli, used));
        if (!ops.back().valid) {
            allValid = false;
        }
        c.log << "% " << ops.back().key << "=" << ops.back().value << (ops.back().valid ? "" : "   (invalid)") << "\n";
    }
    // canonical configuration for thread 0
    std::vector<Op> canonical;
    for (int k = 0; k < 4; ++k) {
        canonical.push_back({threadKeys[k], conf.get(k, 0), true});
    }
    canonical.push_back({"add-mutexes", conf.mutexes, true});
    canonical.push_back({"dl-heuristic", conf.decide, true});
    canonical.push_back({"rdl", conf.rdl ? "yes" : "no", true});
    canonical.push_back({"shift-constraints", conf.shift ? "yes" : "no", true});
    canonical.push_back({"compute-components", conf.cc ? "yes" : "no", true});

    // program
    Inst inst;
    if (conf.rdl || rng.chance(20)) {
        GenOpt go;
        go.minVars = 3;
        go.body = !conf.rdl;
        go.maxHead = 6;
        go.maxChoice = 4;
        inst = generate(rng, go);
    } else {
        inst = generateJobs(rng, 3, rng.range(2, 3), rng.chance(50));
    }
    auto program = inst.dl() + "\n&diff { cc_a - cc_b } <= 3. { cc_c }. :- cc_c, not cc_c.\n";
    if (!conf.rdl) {
        program += ":- &diff { cc_a - cc_b } <= 1, cc_c.\n";
    }
    std::vector<std::string> args{"--models=30", "--seed=" + std::to_string(rng.range(1, 1000)), "--warn=none"};
    if (threads > 1) {
        args.push_back("-t" + std::to_string(threads) + (rng.chance(50) ? ",split" : ""));
        args[0] = "--models=0";
    }
    c.log << "% clingo: " << join(args) << (cli ? " (command line)" : "") << "\n" << program;

    Observed got;
    Mon mon;
    mon.hashTrace = threads == 1;
    if (cli) {
        auto all = cliArgs(ops);
        all.insert(all.begin(), args.begin(), args.end());
        observeCli(all, program, mon, got, allValid);
        c.count(allValid ? "command lines accepted" : "command lines rejected");
        if (!allValid) {
            c.nontrivial(c.log.str());
            return;
        }
    } else {
        clingodl_theory_t *theory = nullptr;
        Clingo::Detail::handle_error(clingodl_create(&theory));
        std::unique_ptr<clingodl_theory_t, bool (*)(clingodl_theory_t *)> guard{theory, clingodl_destroy};
        for (auto const &op : ops) {
            clingo_set_error(clingo_error_unknown, "no error set");
            bool ret = clingodl_configure(theory, op.key.c_str(), op.value.c_str());
            if (ret != op.valid) {
                violate("value '" + op.value + "' for key '" + op.key + "' was " + (ret ? "accepted" : "rejected"));
            }
            if (!ret && lastError().find("'" + op.key + "'") == std::string::npos) {
                violate("value '" + op.value + "' for key '" + op.key + "' was rejected but the error is: " + lastError());
            }
            c.count(ret ? "values accepted" : "values rejected");
            if (c.tags != nullptr) {
                c.tags->insert(op.key + "=" + op.value);
            }
            if (rng.chance(15)) {
                auto key = rng.pick<std::string>({"propagat", "propagates", "", "Propagate", "propagate ", "RDL", "threads",
                                                  "sort_edges", "add-mutex", "minimize-variable", "propagate-Root",
                                                  "configuration", "--rdl", "propagate,0", "propagate=full", "rdl=1"});
                clingo_set_error(clingo_error_unknown, "no error set");
                if (clingodl_configure(theory, key.c_str(), rng.pick({"no", "1", "full", "yes"}))) {
                    violate("unknown key '" + key + "' was accepted");
                }
                if (lastError().find("'" + key + "'") == std::string::npos) {
                    violate("unknown key '" + key + "' was rejected but the error is: " + lastError());
                }
                c.count("keys rejected");
            }
        }
        std::vector<char const *> cargs;
        for (auto const &a : args) {
            cargs.push_back(a.c_str());
        }
        Clingo::Control ctl{Clingo::StringSpan{cargs.data(), cargs.size()}, [](Clingo::WarningCode, char const *) {}};
        DLRun run{theory, ctl.to_c(), &mon};
        observe(run, mon, program, got);
    }
    // features that are visible directly
    bool shifted = got.shifted.find("&__diff_h") != std::string::npos;
    if (shifted != conf.shift) {
        violate("shift-constraints is " + std::string(conf.shift ? "on" : "off") + " but the statement became: " +
                got.shifted);
    }
    if ((got.sawDouble && !conf.rdl) || (got.sawInt && conf.rdl)) {
        violate("values have the wrong type for the number type configured");
    }
    if ((got.decides > 0) && conf.decide == "no") {
        violate("heuristic called though it is disabled");
    }
    if (got.models.empty() && got.stats.threads.empty()) {
        c.count("programs without search");
        return;
    }
    if (got.stats.threads.size() != static_cast<size_t>(threads)) {
        violate("statistics report " + std::to_string(got.stats.threads.size()) + " threads");
    }
    if ((got.stats.values.at("CCs") > 0) != conf.cc) {
        violate("compute-components is not applied");
    }
    if (got.stats.values.at("Mutexes") > 0 &&
        (conf.mutexes.substr(0, 2) == "0," || conf.mutexes == "0" ||
         (conf.mutexes.size() > 2 && conf.mutexes.substr(conf.mutexes.size() - 2) == ",0"))) {
        violate("mutexes were added though disabled");
    }
    for (int t = 0; t < threads; ++t) {
        fingerprint(c, conf, t, got.stats.threads[t], "counters");
    }
    if (threads > 1) {
        c.count("parallel runs");
        c.nontrivial(c.log.str());
        return;
    }
    // compare with canonical configuration
    Observed exp;
    Mon mon2;
    mon2.hashTrace = true;
    if (cli) {
        auto all = cliArgs(canonical);
        all.insert(all.begin(), args.begin(), args.end());
        observeCli(all, program, mon2, exp, true);
    } else {
        Opts o;
        for (auto const &op : canonical) {
            o.emplace_back(op.key, op.value);
        }
        DLRun run{o, args, &mon2};
        observe(run, mon2, program, exp);
    }
    if (got.models != exp.models) {
        violate("answers differ from those of the canonical configuration");
    }
    if (got.trace != exp.trace || got.decides != exp.decides) {
        std::string o;
        for (auto const &op : canonical) {
            o += " " + op.key + "=" + op.value;
        }
        violate("the search differs from the one of the canonical configuration" + o + " (" +
                std::to_string(got.clauses) + " vs " + std::to_string(exp.clauses) + " clauses)");
    }
    for (auto const &[k, v] : exp.stats.values) {
        if (k.find("(s)") == std::string::npos && got.stats.values.at(k) != v) {
            violate("statistics value '" + k + "' differs from the one of the canonical configuration");
        }
    }
    for (auto const &[k, v] : exp.stats.threads.at(0)) {
        if (k.find("(s)") == std::string::npos && got.stats.threads.at(0).at(k) != v) {
            violate("counter '" + k + "' differs from the one of the canonical configuration");
        }
    }
    c.count("runs compared with canonical configuration");
    c.count("clauses in compared runs", got.clauses);
    if (got.clauses > 0) {
        c.nontrivial(c.log.str());
    }
}

} // namespace M
