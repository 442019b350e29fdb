// C20: the command-line program is run as a process and compared with the library and the reference.
#include "dlmon.hh"

#include <algorithm>
#include <cerrno>
#include <climits>
#include <cmath>
#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <spawn.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern char **environ;

namespace M {

namespace {

// {{{ processes

double now() {
    struct timespec t {};
    clock_gettime(CLOCK_MONOTONIC, &t);
    return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
}

//! Scratch directory removed at the end.
struct Dir {
    std::string path;
    std::vector<std::string> files;
    Dir() {
        char cwd[PATH_MAX];
        if (getcwd(cwd, sizeof(cwd)) == nullptr) {
            throw std::logic_error("getcwd");
        }
        std::string t = std::string(cwd) + "/app.XXXXXX";
        if (mkdtemp(t.data()) == nullptr) {
            throw std::logic_error("mkdtemp");
        }
        path = t;
    }
    ~Dir() {
        for (auto const &f : files) {
            unlink(f.c_str());
        }
        rmdir(path.c_str());
    }
    std::string file(std::string const &name, std::string const &content) {
        auto p = path + "/" + name;
        std::ofstream o(p, std::ios::trunc | std::ios::binary);
        o << content;
        files.push_back(p);
        return p;
    }
};

struct Proc {
    int code{-1};
    int sig{0};
    bool timeout{false};
    std::string out, err;
};

std::string slurp(std::string const &p) {
    std::ifstream i(p, std::ios::binary);
    std::ostringstream o;
    o << i.rdbuf();
    return o.str();
}

Proc launch(Dir &dir, std::vector<std::string> const &args, std::string const &input, double limit) {
    auto in = dir.file("stdin", input);
    auto out = dir.file("stdout", "");
    auto err = dir.file("stderr", "");
    auto const *app = std::getenv("DLMON_APP");
    if (app == nullptr) {
        throw std::logic_error("DLMON_APP not set");
    }
    std::vector<char *> argv{const_cast<char *>(app)};
    for (auto const &a : args) {
        argv.push_back(const_cast<char *>(a.c_str()));
    }
    argv.push_back(nullptr);
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_addopen(&fa, 0, in.c_str(), O_RDONLY, 0);
    posix_spawn_file_actions_addopen(&fa, 1, out.c_str(), O_WRONLY | O_TRUNC, 0);
    posix_spawn_file_actions_addopen(&fa, 2, err.c_str(), O_WRONLY | O_TRUNC, 0);
    pid_t pid = 0;
    int rc = posix_spawn(&pid, app, &fa, nullptr, argv.data(), environ);
    posix_spawn_file_actions_destroy(&fa);
    if (rc != 0) {
        throw std::logic_error("posix_spawn");
    }
    double t0 = now();
    Proc p;
    int status = 0;
    for (;;) {
        pid_t r = waitpid(pid, &status, WNOHANG);
        if (r == pid) {
            break;
        }
        if (r < 0 && errno != EINTR) {
            throw std::logic_error("waitpid");
        }
        double t = now() - t0;
        if (t > limit) {
            p.timeout = true;
            kill(pid, SIGKILL);
            while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {
            }
            break;
        }
        struct timespec w {0, 300000};
        nanosleep(&w, nullptr);
    }
    if (WIFEXITED(status)) {
        p.code = WEXITSTATUS(status);
    } else if (WIFSIGNALED(status)) {
        p.sig = WTERMSIG(status);
    }
    p.out = slurp(out);
    p.err = slurp(err);
    return p;
}

bool contains(std::string const &s, char const *x) { return s.find(x) != std::string::npos; }

//! Run the program; crashes and hangs are violations.
Proc app(Dir &dir, std::vector<std::string> const &args, std::string const &input = "") {
    auto p = launch(dir, args, input, 40);
    if (p.timeout) {
        p = launch(dir, args, input, 90);
    }
    auto what = [&]() { return "program " + join(args) + "\n" + p.err.substr(0, 3000); };
    if (p.timeout) {
        violate("hang: " + what());
    }
    for (auto const *x : {"ERROR: AddressSanitizer", "runtime error:", "Assertion `", "Assertion '", "terminate called"}) {
        if (contains(p.err, x)) {
            violate("crash: " + what());
        }
    }
    if (contains(p.err, "ERROR: LeakSanitizer")) {
        // Note: libclingo leaks in parallel runs
        std::istringstream in{p.err};
        for (std::string line; std::getline(in, line);) {
            if ((contains(line, "#1 0x") || contains(line, "#2 0x")) && !contains(line, "libclingo.so") &&
                (contains(line, "ClingoDL") || contains(line, "clingodl_"))) {
                violate("memory leak: " + what());
            }
        }
    }
    if (p.sig != 0) {
        violate("killed by signal " + std::to_string(p.sig) + ": " + what());
    }
    return p;
}

// }}}
// {{{ output

struct Json {
    enum Kind { Null, Bool, Num, Str, Arr, Obj } kind{Null};
    double num{0};
    std::string str;
    std::vector<Json> arr;
    std::vector<std::pair<std::string, Json>> obj;
    Json const *get(std::string const &k) const {
        for (auto const &[n, v] : obj) {
            if (n == k) {
                return &v;
            }
        }
        return nullptr;
    }
};

class JsonParser {
  public:
    explicit JsonParser(std::string const &s) : s{s} {}
    Json parse() {
        auto j = value();
        ws();
        if (i != s.size()) {
            fail();
        }
        return j;
    }

  private:
    std::string const &s;
    size_t i{0};
    [[noreturn]] void fail() { violate("output is not valid JSON at position " + std::to_string(i) + ":\n" + s.substr(0, 3000)); }
    void ws() {
        while (i < s.size() && std::isspace(static_cast<unsigned char>(s[i])) != 0) {
            ++i;
        }
    }
    char peek() {
        ws();
        if (i >= s.size()) {
            fail();
        }
        return s[i];
    }
    void expect(char ch) {
        if (peek() != ch) {
            fail();
        }
        ++i;
    }
    std::string string() {
        expect('"');
        std::string r;
        while (i < s.size() && s[i] != '"') {
            if (s[i] == '\\' && i + 1 < s.size()) {
                ++i;
                r += s[i] == 'n' ? '\n' : s[i] == 't' ? '\t' : s[i];
            } else {
                r += s[i];
            }
            ++i;
        }
        expect('"');
        return r;
    }
    Json value() {
        Json j;
        char ch = peek();
        if (ch == '{') {
            j.kind = Json::Obj;
            ++i;
            if (peek() != '}') {
                do {
                    auto k = string();
                    expect(':');
                    auto v = value();
                    j.obj.emplace_back(std::move(k), std::move(v));
                } while (more('}'));
            } else {
                ++i;
            }
        } else if (ch == '[') {
            j.kind = Json::Arr;
            ++i;
            if (peek() != ']') {
                do {
                    j.arr.push_back(value());
                } while (more(']'));
            } else {
                ++i;
            }
        } else if (ch == '"') {
            j.kind = Json::Str;
            j.str = string();
        } else {
            size_t b = i;
            while (i < s.size() && (std::isalnum(static_cast<unsigned char>(s[i])) != 0 || s[i] == '.' || s[i] == '-' || s[i] == '+')) {
                ++i;
            }
            auto w = s.substr(b, i - b);
            char *end = nullptr;
            j.num = std::strtod(w.c_str(), &end);
            if (!w.empty() && *end == '\0') {
                j.kind = Json::Num;
            } else if (w == "null") {
                j.kind = Json::Null;
            } else if (w == "true" || w == "false") {
                j.kind = Json::Bool;
                j.num = w == "true" ? 1 : 0;
            } else {
                fail();
            }
        }
        return j;
    }
    bool more(char close) {
        if (peek() == ',') {
            ++i;
            return true;
        }
        expect(close);
        return false;
    }
};

//! Split a line into symbols.
std::vector<std::string> splitSymbols(std::string const &line) {
    std::vector<std::string> r;
    std::string cur;
    int depth = 0;
    bool str = false;
    for (size_t i = 0; i < line.size(); ++i) {
        char ch = line[i];
        if (str) {
            cur += ch;
            if (ch == '\\' && i + 1 < line.size()) {
                cur += line[++i];
            } else if (ch == '"') {
                str = false;
            }
            continue;
        }
        if (ch == '"') {
            str = true;
        }
        depth += ch == '(' ? 1 : ch == ')' ? -1 : 0;
        if (ch == ' ' && depth == 0) {
            if (!cur.empty()) {
                r.push_back(cur);
            }
            cur.clear();
        } else {
            cur += ch;
        }
    }
    if (!cur.empty()) {
        r.push_back(cur);
    }
    return r;
}

using Answer = std::vector<std::string>; // sorted symbols

enum class Fmt { Text, Plain, Json, Quiet };

struct Output {
    std::vector<Answer> answers;
    std::string result; //!< SATISFIABLE, ...
    bool error{false};
    i64 models{-1};
    bool more{false};
    int calls{-1};
    bool statsPresent{false};
    std::map<std::string, double> stats; //!< flattened
};

void flatten(std::string const &p, Json const &j, std::map<std::string, double> &out) {
    if (j.kind == Json::Num) {
        out[p] = j.num;
    }
    for (auto const &[k, v] : j.obj) {
        flatten(p + "/" + k, v, out);
    }
    for (size_t i = 0; i < j.arr.size(); ++i) {
        flatten(p + "/" + std::to_string(i), j.arr[i], out);
    }
}

Output parseOutput(std::string const &s, Fmt fmt) {
    Output o;
    auto result = [&](std::string const &r) {
        if (!o.result.empty()) {
            violate("more than one result reported:\n" + s.substr(0, 2000));
        }
        o.result = r;
    };
    if (fmt == Fmt::Json) {
        auto j = JsonParser{s}.parse();
        if (auto const *r = j.get("Result")) {
            result(r->str);
        }
        if (auto const *call = j.get("Call")) {
            for (auto const &cl : call->arr) {
                if (auto const *w = cl.get("Witnesses")) {
                    for (auto const &x : w->arr) {
                        Answer a;
                        if (auto const *v = x.get("Value")) {
                            for (auto const &y : v->arr) {
                                a.push_back(y.str);
                            }
                        }
                        std::sort(a.begin(), a.end());
                        o.answers.push_back(a);
                    }
                }
            }
        }
        if (auto const *m = j.get("Models")) {
            if (auto const *n = m->get("Number")) {
                o.models = static_cast<i64>(n->num);
            }
            if (auto const *n = m->get("More")) {
                o.more = n->str == "yes";
            }
        }
        if (auto const *cl = j.get("Calls")) {
            o.calls = static_cast<int>(cl->num);
        }
        if (auto const *st = j.get("Stats")) {
            if (auto const *dl = st->get("DifferenceLogic")) {
                o.statsPresent = true;
                flatten("", *dl, o.stats);
            }
        }
        return o;
    }
    std::istringstream in{s};
    bool answer = fmt == Fmt::Plain;
    for (std::string line; std::getline(in, line);) {
        if (line == "SATISFIABLE" || line == "UNSATISFIABLE" || line == "UNKNOWN" || line == "OPTIMUM FOUND") {
            result(line);
            answer = false;
        } else if (answer) {
            auto a = splitSymbols(line);
            std::sort(a.begin(), a.end());
            o.answers.push_back(a);
            answer = fmt == Fmt::Plain;
        } else if (line.rfind("Answer: ", 0) == 0) {
            answer = true;
        } else if (line.rfind("Models       : ", 0) == 0) {
            o.models = std::stoll(line.substr(15));
            o.more = contains(line, "+");
        } else if (line.rfind("Calls        : ", 0) == 0) {
            o.calls = std::stoi(line.substr(15));
        }
    }
    return o;
}

bool errorCode(int rc) { return rc == 1 || rc == 33 || rc == 128 || (rc & 65) == 65; }

void expectError(Proc const &p, std::string const &what) {
    if (!errorCode(p.code) || !contains(p.err, "*** ERROR")) {
        violate(what + " does not lead to an error (exit code " + std::to_string(p.code) + "):\n" + p.err.substr(0, 1500) +
                p.out.substr(0, 1500));
    }
}

//! Exit code, result line and number of models have to be consistent with what is known.
void judge(Proc const &p, Output const &o, Fmt fmt, bool sat, bool exhausted, bool either, std::string const &what) {
    auto say = [&](std::string const &s) {
        violate(what + ": " + s + " (exit code " + std::to_string(p.code) + ", result " + o.result + "):\n" +
                p.err.substr(0, 1500) + p.out.substr(0, 2500));
    };
    int code = sat ? 10 : 0;
    bool ok = false;
    if (either) {
        ok = p.code == code || p.code == code + 20;
    } else {
        ok = p.code == code + (exhausted ? 20 : 0);
    }
    if (!ok) {
        say("wrong exit code");
    }
    char const *res = sat ? "SATISFIABLE" : p.code == 20 ? "UNSATISFIABLE" : "UNKNOWN";
    if (o.result != res) {
        say("wrong result");
    }
    if (o.models >= 0 && fmt != Fmt::Quiet && o.models != static_cast<i64>(o.answers.size())) {
        say("wrong number of models");
    }
    if (o.models >= 0 && o.more != (p.code < 20)) {
        say("wrong indication of further models");
    }
    if (contains(p.err, "*** ERROR")) {
        say("unexpected error message");
    }
}

// }}}

std::vector<std::string> optArgs(Rng &rng, Opts const &opts) {
    std::vector<std::string> r;
    std::map<std::string, std::string> single;
    for (auto const &[k, v] : opts) {
        if (k == "dl-heuristic" || k == "rdl" || k == "shift-constraints" || k == "compute-components") {
            single[k] = v;
        } else if (rng.chance(80)) {
            r.push_back("--" + k + "=" + v);
        } else {
            r.push_back("--" + k);
            r.push_back(v);
        }
    }
    for (auto const &[k, v] : single) {
        if (k == "dl-heuristic") {
            r.push_back("--" + k + "=" + v);
        } else {
            r.push_back((v == "yes" || v == "1" || v == "on" || v == "true" ? "--" : "--no-") + k);
        }
    }
    return r;
}

//! Distribute a program over files (and standard input).
struct Files {
    bool ordered{true};
    std::vector<std::string> args;
    std::string input;
};
Files writeProgram(Dir &dir, Rng &rng, std::string const &text) {
    Files f;
    int n = rng.chance(60) ? 1 : rng.range(2, 3);
    f.ordered = n == 1;
    std::vector<std::string> parts(n);
    std::istringstream in{text};
    std::string line;
    while (std::getline(in, line)) {
        parts[rng.range(0, n - 1)] += line + "\n";
    }
    int stdinPart = rng.chance(20) ? rng.range(0, n - 1) : -1;
    int included = n > 1 && rng.chance(30) ? rng.range(0, n - 1) : -1;
    if (included == stdinPart) {
        included = -1;
    }
    std::string includeLine;
    if (included >= 0) {
        auto name = "part" + std::to_string(included) + ".lp";
        auto p = dir.file(name, parts[included]);
        includeLine = "#include \"" + p + "\".\n";
    }
    bool done = included < 0;
    for (int i = 0; i < n; ++i) {
        if (i == included) {
            continue;
        }
        auto body = parts[i];
        if (!done) {
            body = rng.chance(50) ? includeLine + body : body + includeLine;
            done = true;
        }
        if (i == stdinPart) {
            f.input = body;
            if (n > 1 || rng.chance(50)) {
                f.args.emplace_back("-");
            }
        } else {
            f.args.push_back(dir.file("part" + std::to_string(i) + ".lp", body));
        }
    }
    return f;
}

std::vector<std::string> format(Rng &rng, Fmt fmt) {
    switch (fmt) {
        case Fmt::Text: return rng.chance(30) ? std::vector<std::string>{"-V1"} : std::vector<std::string>{};
        case Fmt::Plain: return {"-V0"};
        case Fmt::Json: return {"--outf=2"};
        default: return {"-q"};
    }
}

std::map<Answer, int> multiset(std::vector<Answer> const &v) {
    std::map<Answer, int> r;
    for (auto const &a : v) {
        r[a]++;
    }
    return r;
}

void compareAnswers(std::map<Answer, int> const &expected, std::map<Answer, int> const &got, bool all,
                    std::string const &what) {
    for (auto const &[a, n] : got) {
        auto it = expected.find(a);
        if (it == expected.end() || it->second < n) {
            violate(what + ": the program prints an answer the library does not compute: " + join(a));
        }
    }
    if (all) {
        for (auto const &[a, n] : expected) {
            auto it = got.find(a);
            if (it == got.end() || it->second < n) {
                violate(what + ": the program does not print an answer the library computes: " + join(a));
            }
        }
    }
}

//! Split answer into plain atoms and values.
std::string keyOfPrinted(Answer const &a, Inst const &inst) {
    std::vector<std::string> atoms;
    std::map<std::string, i64> val;
    for (auto const &s : a) {
        if (s.rfind("dl(", 0) == 0) {
            auto p = s.rfind(',');
            if (!val.emplace(s.substr(3, p - 3), std::stoll(s.substr(p + 1))).second) {
                violate("value of variable printed twice: " + join(a));
            }
        } else {
            atoms.push_back(s);
        }
    }
    return keyOf(atoms, val, inst.atoms, inst.vars);
}

//! Answers as computed by the library in this process.
struct LibOut {
    std::vector<Answer> shown;
    SolveOut out;
    DLStats stats;
};
LibOut library(Opts const &opts, std::vector<std::string> const &args, std::string const &text, bool stats) {
    LibOut l;
    auto a = args;
    if (stats) {
        a.emplace_back("--stats");
    }
    DLRun run{opts, a};
    run.withStats = true;
    run.parse(text);
    run.ground();
    l.out = run.solve({}, [&](Clingo::Model &m, Model &mm) {
        Answer s;
        for (auto const &x : m.symbols(Clingo::ShowType::Shown)) {
            s.push_back(x.to_string());
        }
        // terms added by the theory are shown, too
        for (auto const &x : mm.dlterms) {
            s.push_back(x);
        }
        std::sort(s.begin(), s.end());
        s.erase(std::unique(s.begin(), s.end()), s.end());
        l.shown.push_back(s);
        return true;
    });
    if (stats) {
        l.stats = readStats(run.ctl(), "user_accu");
    }
    return l;
}

void answers(Case &c) {
    auto &rng = c.rng;
    Dir dir;
    GenOpt go;
    bool rdl = rng.chance(12);
    go.body = !rdl;
    auto inst = !rdl && rng.chance(10) ? generateJobs(rng, rng.range(2, 4), 2, rng.chance(70)) : generate(rng, go);
    int threads = rng.chance(10) ? 2 : 1;
    auto opts = randomDlOpts(rng, threads);
    if (rdl) {
        opts.emplace_back("rdl", "yes");
    }
    if (rng.chance(20)) {
        opts.emplace_back("shift-constraints", rng.pick<std::string>({"yes", "no"}));
    }
    auto clasp = randomClaspArgs(rng);
    if (threads > 1) {
        clasp.push_back("-t2" + std::string(rng.chance(50) ? ",split" : ",compete"));
    }
    clasp.emplace_back("--warn=none");
    auto text = inst.dl();
    bool show = rng.chance(20);
    if (show) {
        text += rng.pick<std::string>({"#show c/1.\n", "#show.\n", "#show t(X) : c(X).\n#show bb/1.\n"});
    }
    RefOpt ro;
    ro.limit = 1500;
    auto ref = reference(inst, ro);
    if (!ref.complete) {
        c.count("skipped (too many answers)");
        return;
    }
    auto libArgs = clasp;
    libArgs.insert(libArgs.begin(), "0");
    auto lib = library(opts, libArgs, text, true);
    auto expected = multiset(lib.shown);
    size_t total = lib.shown.size();
    auto fmt = rng.pick({Fmt::Text, Fmt::Text, Fmt::Text, Fmt::Plain, Fmt::Json, Fmt::Json, Fmt::Json, Fmt::Quiet});
    bool stats = fmt == Fmt::Json || rng.chance(20);
    size_t limit = rng.chance(65) ? 0 : static_cast<size_t>(rng.range(1, 4));
    auto files = writeProgram(dir, rng, text);
    std::vector<std::string> args = optArgs(rng, opts);
    args.insert(args.end(), clasp.begin(), clasp.end());
    for (auto const &x : format(rng, fmt)) {
        args.push_back(x);
    }
    if (stats && fmt != Fmt::Plain) {
        args.emplace_back("--stats");
    }
    bool single = rng.chance(10);
    if (single) {
        args.emplace_back("--single-shot");
    }
    args.insert(args.end(), files.args.begin(), files.args.end());
    args.push_back(std::to_string(limit));
    c.log << "% clingo-dl " << join(args) << "\n" << text;
    auto p = app(dir, args, files.input);
    auto o = parseOutput(p.out, fmt);
    bool exhausted = limit == 0 || total < limit;
    judge(p, o, fmt, total > 0, exhausted, !exhausted && total == limit, "solving");
    if (fmt != Fmt::Quiet) {
        compareAnswers(expected, multiset(o.answers), exhausted, "solving");
    }
    size_t number = exhausted ? total : std::min(total, limit);
    if (fmt != Fmt::Plain && (o.models < static_cast<i64>(number) || (threads == 1 && o.models > static_cast<i64>(number)))) {
        violate("number of models is " + std::to_string(o.models) + " where it should be " + std::to_string(number));
    }
    if (fmt != Fmt::Quiet && !show && !rdl) {
        Keys keys;
        for (auto const &a : o.answers) {
            keys[keyOfPrinted(a, inst)]++;
        }
        if (exhausted) {
            compareKeys(ref.keys, keys, "answers printed by the program");
        }
    }
    if (fmt == Fmt::Json && threads == 1 && lib.stats.present) {
        if (!o.statsPresent) {
            violate("statistics of the theory are not printed:\n" + p.out.substr(0, 3000));
        }
        if (limit == 0 && files.ordered && !single) {
            std::map<std::string, double> exp;
            for (auto const &[k, v] : lib.stats.values) {
                exp["/" + k] = v;
            }
            for (size_t i = 0; i < lib.stats.threads.size(); ++i) {
                for (auto const &[k, v] : lib.stats.threads[i]) {
                    exp["/Thread/" + std::to_string(i) + "/" + k] = v;
                }
            }
            for (auto const &[k, v] : exp) {
                if (contains(k, "(s)")) {
                    continue;
                }
                auto it = o.stats.find(k);
                if (it == o.stats.end() || std::abs(it->second - v) > 1e-4 * std::abs(v)) {
                    violate("statistic " + k + " should be " + std::to_string(v) + " but is " +
                            (it == o.stats.end() ? "missing" : std::to_string(it->second)));
                }
                c.count("statistics compared");
            }
        }
    }
    c.count("answers printed", o.answers.size());
    c.count(total > 0 ? "satisfiable" : "unsatisfiable");
    if (files.args.size() > 1) {
        c.count("programs in several files");
    }
    if (!o.answers.empty()) {
        c.nontrivial(c.log.str());
    }
}

void minimize(Case &c) {
    auto &rng = c.rng;
    Dir dir;
    Inst inst;
    int node = 0;
    if (rng.chance(60)) {
        GenOpt go;
        go.minVars = 2;
        inst = generate(rng, go);
        node = rng.range(1, static_cast<int>(inst.vars.size()));
        TAtom a;
        a.body = false;
        a.u = node;
        a.v = 0;
        a.rel = Rel::GE;
        a.k = rng.range(-60, 60);
        a.text = renderAtom(rng, a, inst.vars, true);
        Rule r;
        r.htatom = static_cast<int>(inst.atoms.size());
        inst.atoms.push_back(a);
        inst.rules.push_back(r);
    } else {
        inst = generateJobs(rng, rng.range(2, 3), 2, rng.chance(20));
        node = static_cast<int>(std::find(inst.vars.begin(), inst.vars.end(), "makespan") - inst.vars.begin()) + 1;
    }
    auto var = inst.vars[node - 1];
    RefOpt ro;
    ro.limit = 3000;
    auto ref = reference(inst, ro);
    if (!ref.complete) {
        c.count("skipped (too many answers)");
        return;
    }
    std::optional<i64> best;
    std::optional<i64> worst;
    for (auto const &a : ref.answers) {
        auto l = a.sys.lowest(node);
        if (!l) {
            c.count("skipped (variable unbounded)");
            return;
        }
        best = best ? std::min(*best, *l) : *l;
        worst = worst ? std::max(*worst, *l) : *l;
    }
    std::optional<i64> initial;
    if (rng.chance(40)) {
        i64 base = best ? rng.pick({*best, *worst}) : 0;
        initial = base + rng.range(-3, 3);
    }
    auto opts = randomDlOpts(rng);
    auto clasp = randomClaspArgs(rng);
    auto fmt = rng.pick({Fmt::Text, Fmt::Json, Fmt::Plain});
    auto args = optArgs(rng, opts);
    args.insert(args.end(), clasp.begin(), clasp.end());
    args.push_back("--minimize-variable=" + var + (initial ? "," + std::to_string(*initial) : ""));
    bool big = std::any_of(inst.atoms.begin(), inst.atoms.end(), [](TAtom const &a) { return std::abs(a.k) > 200; });
    if (big) {
        // Note: with large numbers small steps take too long and larger ones overflow
        args.emplace_back("--minimize-factor=2");
    } else if (rng.chance(50)) {
        args.push_back("--minimize-factor=" + rng.pick<std::string>({"1", "1.5", "2", "1e0", "4"}));
    }
    for (auto const &x : format(rng, fmt)) {
        args.push_back(x);
    }
    args.emplace_back("--warn=none");
    auto files = writeProgram(dir, rng, inst.dl());
    args.insert(args.end(), files.args.begin(), files.args.end());
    c.log << "% clingo-dl " << join(args) << "\n" << inst.dl();
    auto p = app(dir, args, files.input);
    auto o = parseOutput(p.out, fmt);
    if (p.code != 20 || o.result != "UNSATISFIABLE") {
        violate("minimization does not finish (exit code " + std::to_string(p.code) + "):\n" + p.err.substr(0, 1500) +
                p.out.substr(0, 2000));
    }
    std::optional<i64> last;
    for (auto a : o.answers) {
        a.erase(std::remove_if(a.begin(), a.end(), [](std::string const &s) { return s.rfind("__sb(", 0) == 0; }),
                a.end());
        auto key = keyOfPrinted(a, inst);
        if (ref.keys.count(key) == 0) {
            violate("minimization prints something that is no answer: " + join(a));
        }
        std::optional<i64> val;
        auto prefix = "dl(" + var + ",";
        for (auto const &s : a) {
            if (s.rfind(prefix, 0) == 0) {
                val = std::stoll(s.substr(prefix.size()));
            }
        }
        if (!val) {
            violate("value of minimized variable not printed: " + join(a));
        }
        if ((last && *val >= *last) || (initial && *val > *initial)) {
            violate("printed value " + std::to_string(*val) + " is no improvement");
        }
        last = val;
    }
    bool reachable = best && (!initial || *initial >= *best);
    if (reachable != last.has_value() || (reachable && *last != *best)) {
        violate("optimum should be " + (reachable ? std::to_string(*best) : "missing") + " but is " +
                (last ? std::to_string(*last) : "missing"));
    }
    c.count("minimizations");
    c.count("answers printed by minimizations", o.answers.size());
    if (o.answers.size() > 1) {
        c.nontrivial(c.log.str());
    }
}

void errors(Case &c) {
    auto &rng = c.rng;
    Dir dir;
    GenOpt go;
    auto inst = generate(rng, go);
    auto text = inst.dl();
    std::vector<std::string> args = optArgs(rng, randomDlOpts(rng));
    std::string what;
    RefOpt ro;
    ro.limit = 1;
    if (reference(inst, ro).answers.empty()) {
        // Note: the theory does not get to see programs that are found to be unsatisfiable early
        c.count("skipped (no answer)");
        return;
    }
    bool rdl = false;
    switch (rng.range(0, 5)) {
        case 0: {
            what = rng.pick<std::string>(
                {"&diff { x + y } <= 3.", "&diff { x - y - z } <= 0.", "&diff { x * y } <= 3.", "&diff { 2*x } <= 3.",
                 "&diff { x - y; z } <= 3.", "&diff { 1/0 } <= x.", "&diff { x - y } <= z.", "&diff { x } <= \"1.5\".",
                 "&diff { x - x - y - y } <= 3.", "&diff { } <= 3.", "&diff { x - f(1+a) } <= 3.", "&diff { 2**(-1) } <= x.",
                 "&diff { x - y } <= 2147483647 + 1.", "&diff { x ** y } <= 3.", "&diff { -x - y } >= 0."});
            break;
        }
        case 1: {
            what = rng.pick<std::string>({"a :- b", "&diff { x - y } <= .", "&diff { x - y }", "&diff { x - y } =< 3.",
                                          "&diff { x - y <= 3.", "p(X).", "&unknown { x } <= 3.",
                                          "&diff(1) { x - y } <= 3.", "#foo.", "p(\"abc).", "&diff { X } <= 3."});
            break;
        }
        case 2: {
            what = rng.pick<std::string>({"q :- &diff { x } <= 3.", ":- &diff { x - y } <= 3."});
            rdl = true;
            break;
        }
        case 3: {
            args.push_back(rng.pick<std::string>(
                {"--propagate=foo", "--propagate=full,x", "--propagate=full,-1", "--propagate=", "--propagate=full,64",
                 "--propagate-root=-1", "--propagate-root=x", "--propagate-root=1,", "--propagate-root=99999999999999999999",
                 "--propagate-budget=-2", "--propagate-budget=1,2,3", "--add-mutexes=x", "--add-mutexes=1,x",
                 "--add-mutexes=1,2,3", "--sort-edges=up", "--sort-edges=weight,99999999999", "--rdl=maybe",
                 "--dl-heuristic=minmax", "--dl-heuristic=min,0", "--compute-components=maybe",
                 "--minimize-factor=0", "--minimize-factor=0.5", "--minimize-factor=-1", "--minimize-factor=nan",
                 "--minimize-factor=inf", "--minimize-factor=1e10", "--minimize-factor=x", "--minimize-factor=",
                 "--minimize-factor=2x", "--minimize-factor=1,5", "--minimize-variable=x,a", "--minimize-variable=x,5,6",
                 "--minimize-variable=(", "--minimize-variable=)", "--minimize-variable=X", "--minimize-variable=x;y",
                 "--minimize-variable=#inf,x", "--minimize-variable=", "--minimize-variable=,", "--minimize-variable=x,",
                 "--minimize-variable=x y", "--minimize-variable=x,\"5\"", "--minimize-variable=x),(y",
                 "--minimize-variables=x", "--unknown-option", "--unknown=3"}));
            c.log << "% invalid option\n";
            break;
        }
        case 4: {
            // run-time errors of the optimization
            switch (rng.range(0, 1)) {
                case 0: args.push_back("--minimize-variable=" + rng.pick<std::string>({"not_a_variable", "5", "(x,5)", "f(g(unknown))"})); break;
                default: {
                    // a single inequality in the head suffices to give the variable a value
                    text += "&diff { minimize_me } >= 3.\n";
                    args.push_back("--minimize-variable=minimize_me");
                    args.erase(std::remove_if(args.begin(), args.end(), [](std::string const &s) { return s.rfind("--rdl", 0) == 0; }), args.end());
                    for (auto const &t : inst.atoms) {
                        if (t.body) {
                            c.count("skipped (body atoms)");
                            return;
                        }
                    }
                    rdl = true;
                }
            }
            break;
        }
        default: {
            args.push_back(dir.path + "/missing.lp");
            break;
        }
    }
    if (!what.empty()) {
        text += what + "\n";
    }
    if (rdl) {
        args.emplace_back("--rdl");
    }
    auto fmt = rng.pick({Fmt::Text, Fmt::Json, Fmt::Plain});
    for (auto const &x : format(rng, fmt)) {
        args.push_back(x);
    }
    if (rng.chance(20)) {
        args.push_back("-t2");
    }
    auto files = writeProgram(dir, rng, text);
    args.insert(args.end(), files.args.begin(), files.args.end());
    args.emplace_back("0");
    c.log << "% clingo-dl " << join(args) << "\n" << text;
    auto p = app(dir, args, files.input);
    expectError(p, "the error");
    if (contains(p.out, "UNSATISFIABLE")) {
        violate("the program claims that there are no answers:\n" + p.out.substr(0, 2000));
    }
    c.count("erroneous runs");
    c.nontrivial(c.log.str());
}

//! Values of options: accepted if and only if the library accepts them and with the same effect.
void values(Case &c) {
    auto &rng = c.rng;
    Dir dir;
    auto key = rng.pick<std::string>({"propagate", "propagate-root", "propagate-budget", "add-mutexes", "sort-edges", "dl-heuristic"});
    std::map<std::string, std::vector<std::string>> base{
        {"propagate", {"no", "inverse", "partial", "partial+", "zero", "full"}},
        {"propagate-root", {"0", "1", "50", "4294967295", "18446744073709551615"}},
        {"propagate-budget", {"0", "1", "50", "4294967295", "18446744073709551615"}},
        {"add-mutexes", {"0", "1", "3", "10", "3,5", "100,100000"}},
        {"sort-edges", {"no", "weight", "weight-reversed", "potential", "potential-reversed"}},
        {"dl-heuristic", {"no", "min", "max"}}};
    auto val = rng.pick(base[key]);
    if (rng.chance(50)) {
        val += "," + rng.pick<std::string>({"0", "1", "63", "64", "-1", "00", "x", "", "1,1", " 1", "4294967296"});
    }
    if (rng.chance(50)) {
        int n = rng.range(1, 2);
        std::string const chars = "0123456789,-+. xXnoful\t";
        for (int i = 0; i < n; ++i) {
            auto pos = static_cast<size_t>(rng.range(0, static_cast<int>(val.size())));
            char ch = chars[rng.range(0, static_cast<int>(chars.size()) - 1)];
            switch (rng.range(0, 2)) {
                case 0: val.insert(pos, 1, ch); break;
                case 1: if (pos < val.size()) { val.erase(pos, 1); } break;
                default: if (pos < val.size()) { val[pos] = ch; }
            }
        }
    }
    GenOpt go;
    auto inst = generate(rng, go);
    RefOpt ro;
    ro.limit = 500;
    auto ref = reference(inst, ro);
    if (!ref.complete) {
        c.count("skipped (too many answers)");
        return;
    }
    std::vector<std::string> args{"--" + key + "=" + val, "--outf=2", "--stats", "--warn=none"};
    auto files = writeProgram(dir, rng, inst.dl());
    args.insert(args.end(), files.args.begin(), files.args.end());
    args.emplace_back("0");
    c.log << "% clingo-dl " << join(args) << "\n" << inst.dl();
    bool accepted = true;
    {
        clingodl_theory_t *t{};
        Clingo::Detail::handle_error(clingodl_create(&t));
        Scope s;
        accepted = clingodl_configure(t, key.c_str(), val.c_str());
        clingodl_destroy(t);
    }
    auto p = app(dir, args, files.input);
    if (!accepted) {
        expectError(p, "option value '" + val + "' rejected by the library");
        c.count("option values rejected");
    } else {
        auto o = parseOutput(p.out, Fmt::Json);
        auto lib = library({{key, val}}, {"0", "--warn=none"}, inst.dl(), true);
        judge(p, o, Fmt::Json, !lib.shown.empty(), true, false, "option value '" + val + "' accepted by the library");
        compareAnswers(multiset(lib.shown), multiset(o.answers), true, "option value");
        Keys keys;
        for (auto const &a : o.answers) {
            keys[keyOfPrinted(a, inst)]++;
        }
        compareKeys(ref.keys, keys, "answers printed by the program");
        for (size_t i = 0; files.ordered && i < lib.stats.threads.size(); ++i) {
            for (auto const &[k, v] : lib.stats.threads[i]) {
                if (contains(k, "(s)")) {
                    continue;
                }
                auto it = o.stats.find("/Thread/" + std::to_string(i) + "/" + k);
                if (it == o.stats.end() || std::abs(it->second - v) > 1e-4 * std::abs(v)) {
                    violate("option has a different effect: statistic " + k + " should be " + std::to_string(v));
                }
            }
        }
        c.count("option values accepted");
    }
    c.nontrivial(key + val);
}

//! Stop the program before it is done.
void limited(Case &c) {
    auto &rng = c.rng;
    Dir dir;
    auto inst = generateJobs(rng, rng.range(2, 4), rng.range(2, 3), rng.chance(70));
    auto opts = randomDlOpts(rng);
    auto clasp = randomClaspArgs(rng);
    clasp.emplace_back("--warn=none");
    RefOpt ro;
    ro.limit = 4000;
    auto ref = reference(inst, ro);
    if (!ref.complete) {
        c.count("skipped (too many answers)");
        return;
    }
    auto fmt = rng.pick({Fmt::Text, Fmt::Json, Fmt::Plain});
    auto args = optArgs(rng, opts);
    args.insert(args.end(), clasp.begin(), clasp.end());
    for (auto const &x : format(rng, fmt)) {
        args.push_back(x);
    }
    // Note: signals are not sent because libclingo itself crashes if they arrive while it starts or shuts down
    args.push_back("--solve-limit=" + std::to_string(rng.pick({0, 1, 2, 5, 20})));
    auto files = writeProgram(dir, rng, inst.dl());
    args.insert(args.end(), files.args.begin(), files.args.end());
    args.emplace_back("0");
    c.log << "% clingo-dl " << join(args) << "\n" << inst.dl();
    auto p = app(dir, args, files.input);
    c.count("runs with limits");
    auto o = parseOutput(p.out, fmt);
    Keys keys;
    for (auto const &a : o.answers) {
        keys[keyOfPrinted(a, inst)]++;
    }
    for (auto const &[k, n] : keys) {
        auto it = ref.keys.find(k);
        if (it == ref.keys.end() || it->second < n) {
            violate("stopped program prints something that is no answer: " + k);
        }
    }
    bool exhausted = p.code == 20 || p.code == 30;
    if (exhausted && keys != ref.keys) {
        violate("stopped program claims that all answers have been printed (exit code " + std::to_string(p.code) + "): " +
                std::to_string(keys.size()) + " of " + std::to_string(ref.keys.size()));
    }
    if (!exhausted) {
        bool sat = !keys.empty();
        if (p.code != (sat ? 10 : 0) || o.result != (sat ? "SATISFIABLE" : "UNKNOWN")) {
            violate("wrong result of stopped program (exit code " + std::to_string(p.code) + ", " + o.result + "):\n" +
                    p.err.substr(0, 1000) + p.out.substr(0, 2000));
        }
        c.count("stopped before all answers were found");
        c.nontrivial(c.log.str());
    }
    if (contains(p.err, "*** ERROR")) {
        violate("error reported by stopped program:\n" + p.err.substr(0, 2000));
    }
}

} // namespace

CHECK(C20) {
    int kind = c.rng.range(0, 99);
    if (kind < 50) {
        answers(c);
    } else if (kind < 62) {
        minimize(c);
    } else if (kind < 77) {
        errors(c);
    } else if (kind < 89) {
        values(c);
    } else {
        limited(c);
    }
}

} // namespace M
