// Runtime monitor for clingo-dl: shared declarations.
#pragma once
#include <clingo-dl.h>
#include <clingo.hh>

#include <array>
#include <atomic>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

namespace M {

using i64 = long long;
using i128 = __int128;
using u64 = uint64_t;

// {{{ random numbers

struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1) : s{seed} {}
    u64 next() {
        u64 z = (s += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    // uniform in [lo,hi]
    int range(int lo, int hi) { return lo + static_cast<int>(next() % static_cast<u64>(hi - lo + 1)); }
    bool chance(int percent) { return range(0, 99) < percent; }
    template <class T> T const &pick(std::vector<T> const &v) { return v[next() % v.size()]; }
    template <class T> T pick(std::initializer_list<T> v) { return *(v.begin() + next() % v.size()); }
    template <class T> void shuffle(std::vector<T> &v) {
        for (size_t i = v.size(); i > 1; --i) {
            std::swap(v[i - 1], v[next() % i]);
        }
    }
};
u64 hashStr(std::string const &s, u64 h = 1469598103934665603ULL);

// }}}
// {{{ violations and cases

struct Violation : std::runtime_error {
    using std::runtime_error::runtime_error;
};
[[noreturn]] void violate(std::string const &msg);

//! Number of data races reported in builds with ThreadSanitizer.
extern std::atomic<u64> races;


//! A running case: randomness in, description and counters out.
#ifdef __has_feature
#define MON_HAS_LSAN (__has_feature(address_sanitizer) ? 1 : 0)
#else
#define MON_HAS_LSAN 0
#endif

struct Case {
    u64 index;
    Rng rng;
    bool thorough{false};
    u64 seed{1}; //!< the seed passed to the worker
    std::ostringstream log;              //!< human readable description (goes to replay and samples)
    std::map<std::string, u64> counters; //!< what was observed
    std::vector<u64> *hashes{nullptr};   //!< hashes of distinct non-trivial things
    std::set<std::string> *tags{nullptr};
    void count(std::string const &k, u64 n = 1) { counters[k] += n; }
    void nontrivial(std::string const &what) {
        if (hashes != nullptr) {
            hashes->push_back(hashStr(what));
        }
    }
    Case(u64 idx, u64 seed) : index{idx}, rng{seed} {}
};
//! Give up on this process without reporting a violation in the current case.
extern std::function<void()> abandon;
using CheckFn = void (*)(Case &);
struct CheckReg {
    CheckReg(char const *name, CheckFn fn);
};
#define CHECK(name)                                                                                                    \
    static void check_##name(::M::Case &c);                                                                            \
    static ::M::CheckReg reg_##name(#name, check_##name);                                                              \
    static void check_##name(::M::Case &c)

std::string join(std::vector<std::string> const &v, char const *sep = " ");

// }}}
// {{{ constraints and reference

enum class Rel { LE, LT, GE, GT, EQ, NE };
Rel flip(Rel r);   // mirrored (for -x)
Rel negRel(Rel r); // logical negation
char const *relStr(Rel r);
bool evalRel(Rel r, i64 lhs, i64 rhs);

//! Constraint u - v <= w over node ids (0 is the constant zero).
struct Con {
    int u, v;
    i64 w;
};
//! Set of difference constraints with exact consistency test.
struct DiffSys {
    int n{1};
    std::vector<Con> cons;
    void add(int u, int v, i64 w) {
        n = std::max(n, std::max(u, v) + 1);
        cons.push_back({u, v, w});
    }
    //! Returns the indices of the constraints of a contradictory cycle or an empty vector.
    std::vector<int> conflict() const;
    bool consistent() const { return conflict().empty(); }
    //! dist[a*n+b]: tightest implied bound of a - b (INF if none); requires consistency.
    std::vector<i64> closure() const;
    //! Smallest implied value of node x relative to zero (nullopt: unbounded).
    std::optional<i64> lowest(int x) const;
    static constexpr i64 INF = INT64_MAX / 4;
};
//! Add constraint u - v rel k (not NE).
void addRel(DiffSys &sys, Rel r, int u, int v, i64 k);

struct TAtom {
    bool body; //!< body (strict) or head constraint
    int u, v;  //!< variable ids (0: zero)
    Rel rel;
    i64 k;
    std::string text; //!< e.g. "&diff { a - b } <= 3"
    bool trivial() const { return u == v; }
};
struct BLit {
    std::string atom; //!< regular atom or empty
    int tatom{-1};    //!< body constraint index
    bool neg{false};
    bool direct{false}; //!< write the constraint itself instead of bb(i)
};
struct Rule {
    std::string head; //!< regular atom, "" for constraint
    int htatom{-1};   //!< head constraint
    std::vector<BLit> body;
};
struct Inst {
    std::vector<std::string> vars; //!< vars[i-1] is the name of node i
    std::vector<TAtom> atoms;
    std::vector<std::string> choices;
    std::vector<Rule> rules;
    std::vector<std::string> externals;
    std::string extra; //!< text added verbatim to both programs
    int base{0};       //!< offset of the constraint indices in atom names
    void append(Inst const &other); //!< add a further step (whose base is the number of atoms here)

    std::string dl() const;
    std::string ref() const;
};
struct GenOpt {
    int minVars{2}, maxVars{5};
    int maxBody{3}, maxHead{4}, maxChoice{3}, maxRules{3};
    int bodyFacts{30};
    bool disj{true};    //!< allow = and != relations
    bool body{true};    //!< allow body constraints
    bool nots{true};
    bool notation{true};
    i64 scale{0};       //!< 0: random
    int groups{0};      //!< 0: random
    bool nestedNames{true};
    // multi-shot
    int step{-1};
    int base{0};
    int maxExternals{0};
    std::vector<std::string> vars;      //!< use these variables
    std::vector<std::string> bodyAtoms; //!< further atoms usable in bodies
};
Inst generate(Rng &rng, GenOpt const &opt);
//! Scale constants to multiples of 10^-6 and write them as decimals (returns a version over integers).
std::string makeReal(Rng &rng, Inst &inst, bool strict);
std::string renderAtom(Rng &rng, TAtom const &a, std::vector<std::string> const &vars, bool notation);
std::vector<std::string> varNames(Rng &rng, int n, bool nested = true);

//! Multiset of answer keys.
using Keys = std::map<std::string, int>;

struct RefOpt {
    std::vector<std::string> args;
    std::vector<std::string> forbidden; //!< atoms assumed false
    std::vector<std::string> required;  //!< atoms assumed true
    i64 limit{20000};
    bool theory{true}; //!< take difference constraints into account
};
struct RefAnswer {
    std::string key;
    std::vector<std::string> atoms;
    DiffSys sys; //!< constraints in force
};
struct RefResult {
    Keys keys;
    std::vector<RefAnswer> answers;
    bool complete{true};
};
//! Enumerate all answers of the instance with plain clingo and an own check of constraints.
RefResult reference(Inst const &inst, RefOpt const &opt = {});
//! Reference from explicit text and constraints.
RefResult referenceText(std::string const &text, std::vector<TAtom> const &atoms, RefOpt const &opt = {});
bool reservedAtom(std::string const &s);

// }}}
// {{{ running clingo-dl

struct Model {
    std::vector<std::string> atoms;
    std::map<std::string, i64> ival;
    std::map<std::string, double> dval;
    std::vector<std::string> dlterms; //!< dl/2 terms added to the model
    unsigned thread{0};
    std::vector<int64_t> cost;
};
//! Key of a model of instance w.r.t. reported values. Throws Violation if values contradict constraints in force.
std::string keyOf(std::vector<std::string> const &atoms, std::map<std::string, i64> const &val,
                  std::vector<TAtom> const &tatoms, std::vector<std::string> const &vars);

using Opts = std::vector<std::pair<std::string, std::string>>;
std::string optsStr(Opts const &o);

struct SolveOut {
    std::vector<Model> models;
    bool sat{false}, unsat{false}, unknown{false}, interrupted{false}, exhausted{false};
};

class Mon;
class FixProp;
//! Check for memory that is lost.
bool leakCheck();


class DLRun {
  public:
    DLRun(Opts const &opts, std::vector<std::string> const &args, Mon *mon = nullptr,
          std::function<int(unsigned, unsigned)> strength = nullptr);
    //! Use an existing theory (not registered yet) and control.
    DLRun(clingodl_theory_t *theory, clingo_control_t *control, Mon *mon);
    ~DLRun();
    DLRun(DLRun const &) = delete;
    DLRun &operator=(DLRun const &) = delete;
    void configure(Opts const &opts);
    void registerTheory();
    void parse(std::string const &program);
    void ground(std::vector<std::pair<std::string, std::vector<Clingo::Symbol>>> const &parts = {{"base", {}}});
    SolveOut solve(std::vector<Clingo::SymbolicLiteral> const &assumptions = {},
                   std::function<bool(Clingo::Model &, Model &)> const &onModel = nullptr);
    Model extract(Clingo::Model &m, bool extend = true);
    Clingo::Control &ctl() { return *ctl_; }
    clingodl_theory_t *theory{nullptr};
    std::unique_ptr<Clingo::Control> ctl_;
    Mon *mon;
    std::vector<std::string> messages;
    std::function<void(Clingo::UserStatistics &, Clingo::UserStatistics &)> onStats;
    std::function<int(unsigned, unsigned)> fixStrength;
    std::vector<std::string> args;
    int solveMode{0}; //!< 0: handler, 1: yield, 2: async with handler
    bool withStats{false};
    std::string statsError; //!< reporting statistics failed
    std::function<void()> plainCallback; //!< called in callbacks of the simple propagator
    bool scaleReals{false}; //!< report real values as multiples of 10^-6 in ival, too
    bool destroyTheoryFirst{false};
    bool ownTheory{true};
    // replacement of the theory by a simple propagator
    void registerPlain();
    std::shared_ptr<void> plain;
    std::function<std::map<std::string, i64>(unsigned)> plainValues;
    void reportStats(Clingo::UserStatistics &step, Clingo::UserStatistics &accu);
};

//! Statistics as reported through clingo.
struct DLStats {
    bool present{false};
    std::map<std::string, double> values;
    std::vector<std::map<std::string, double>> threads;
};
DLStats readStats(Clingo::Control &ctl, char const *root);

//! Keys of all models (also checks the values of every model).
Keys keysOf(SolveOut const &out, std::vector<TAtom> const &tatoms, std::vector<std::string> const &vars);
void compareKeys(Keys const &expected, Keys const &got, char const *what);

Opts randomDlOpts(Rng &rng, int threads = 1, bool heuristics = true);
std::vector<std::string> randomClaspArgs(Rng &rng, bool proj = false, bool parallel = false);

//! Job-shop like instance (choices order pairs of operations).
Inst generateJobs(Rng &rng, int jobs, int machines, bool strictBound);

//! Multi-shot session of which the correct answers are known after each step.
class Session {
  public:
    Session(Case &c, DLRun &run, GenOpt go, bool threads)
        : args{run.args}, c{c}, run{run}, go{std::move(go)}, threads{threads} {}
    void step();            //!< generate, rewrite, and ground a new step
    void shuffleExternals(); //!< randomly change values of externals
    void randomThreads();    //!< randomly change the number of threads
    void pickAssumptions();
    //! Answers to expect now.
    RefResult expect();
    SolveOut solve(std::function<bool(Clingo::Model &, Model &)> const &onModel = nullptr) {
        return run.solve(assumptions, onModel);
    }
    //! Solve and compare with expected answers (returns the number of answers or -1 if too many).
    int solveCompare(char const *what);
    //! Add program text as a new step.
    //! (alt is an equivalent in integers for the simple propagator)
    void addPart(std::string const &name, std::string const &text, std::string const &alt = "");
    //! Postprocess generated instances; optionally returns text for the simple propagator.
    std::function<std::string(Inst &)> post;
    //! Whether libclingo does not even work properly with a simple propagator.
    bool environmentBroken(SolveOut const *out);
    struct Op {
        std::function<void(DLRun &)> fn; //!< some operation
        bool compare{false};             //!< or solve and compare
        Keys keys;
        std::vector<Clingo::SymbolicLiteral> assumptions;
        int solveMode{0};
    };
    std::vector<Op> ops;
    std::vector<std::string> args; //!< arguments the control was created with
    bool checkEnv{true};
    bool threadsChanged{false};
    Case &c;
    DLRun &run;
    GenOpt go;
    bool threads;
    Inst inst;
    int steps{0};
    int nThreads{1};
    std::map<std::string, int> externals; //!< 1 true, -1 false, 0 free, -2 released
    std::vector<Clingo::SymbolicLiteral> assumptions;
    RefOpt assumed;
};

// }}}
// {{{ monitoring (wrap layer)

//! Ground theory atom as understood by the independent parser.
struct GAtom {
    bool valid{false};
    bool overflow{false};
    std::string error;
    bool strict{false};
    bool diff{false};
    int lit{0}; //!< solver literal (if resolved)
    int truth{0}; //!< truth value (1, -1, or 0) when initialization started
    std::map<std::string, i128> terms;
    Rel rel{Rel::LE};
    i128 rhs{0}; //!< sum(terms) rel rhs
    std::set<std::string> mentioned;
};
//! Parse the idx-th theory atom independently of clingo-dl.
GAtom parseAtom(clingo_theory_atoms_t const *atoms, clingo_id_t idx);
//! Bring the atom into the form u - v rel k over node names ("" is zero); false if not of that form.
bool asDiff(GAtom const &a, std::string &u, std::string &v, i64 &k);

//! Constraint that holds if lit is true.
struct LitCon {
    int lit;
    Con con;
};

//! What the theory did in one callback (per thread).
struct CallState {
    bool refused{false};
    int afterRefused{0};
};

//! Monitor attached to one registered theory.
class Mon {
  public:
    virtual ~Mon();
    // configuration
    bool trackClauses{false};
    bool trackFix{false};
    int delay{0}; //!< percentage of callbacks with a delay
    std::function<void(char const *cb, clingo_propagate_control_t *ctl)> onCallback; //!< before each callback
    std::function<void(unsigned thread, clingo_assignment_t const *ass, int fallback, int decision)> onDecide;
    std::function<void(clingo_propagate_control_t const *ctl, bool ok)> afterPropagate;
    std::function<void(clingo_propagate_init_t *)> afterInit;
    std::function<void(bool init, clingo_assignment_t const *ass, int const *lits, size_t n)> onClause;
    std::function<void(bool init, unsigned thread, int lit)> onWatch;
    std::function<void(unsigned thread, unsigned level, int const *lits, size_t n, bool refused)> onChanges;
    std::function<void(unsigned thread)> onSearchClause;
    // observations
    std::atomic<u64> nNested{0}, nInit{0}, nPropagate{0}, nCheck{0}, nUndo{0}, nDecide{0}, nInitClauses{0}, nClauses{0},
        nClausesAux{0}, nLits{0}, nRefused{0}, nFix{0}, nFixFree{0}, nWatchAdd{0}, nWatchRem{0}, maxLevel{0};
    std::mutex mutex;
    std::vector<std::string> errors;
    void error(std::string const &s) {
        std::lock_guard<std::mutex> g(mutex);
        if (errors.size() < 8) {
            errors.push_back(s);
        }
    }
    void throwErrors() {
        std::lock_guard<std::mutex> g(mutex);
        if (!errors.empty()) {
            violate(errors.front());
        }
    }
    // trace hash of everything that happened (single threaded runs)
    u64 trace{1469598103934665603ULL};
    bool hashTrace{false};
    void mix(u64 x) {
        if (hashTrace) {
            trace = (trace ^ x) * 1099511628211ULL;
            trace ^= trace >> 29;
        }
    }
    // constraints known so far
    std::unordered_map<std::string, int> nodes{{"", 0}};
    std::vector<std::string> nodeName{""};
    std::vector<LitCon> cons;       //!< lit -> constraint (single inequalities)
    std::vector<GAtom> gatoms;      //!< all atoms seen
    std::unordered_set<int> aux;    //!< auxiliary variables introduced by the theory
    std::unordered_set<int> watched;
    bool hasAuxCons{false};
    int node(std::string const &n);

    // to be called by the wrap layer
    void initBegin(clingo_propagate_init_t *init);
    void initEnd(clingo_propagate_init_t *init, bool ok);
    void clause(bool init, clingo_assignment_t const *ass, int const *lits, size_t n, bool res);

    FixProp *fix{nullptr};
    std::vector<std::shared_ptr<void>> owned;
};

//! Propagator registered after the theory that inspects all fixpoints.
class FixProp : public Clingo::Propagator {
  public:
    Mon &mon;
    // strength requested: 0 none, 1 inverse, 2 zero, 3 full (per thread)
    std::function<int(unsigned thread, unsigned level)> strength;
    explicit FixProp(Mon &m) : mon{m} {}
    void init(Clingo::PropagateInit &init) override;
    void check(Clingo::PropagateControl &ctl) override;
};

//! A theory with its control that is used step by step.
class World {
  public:
    struct Cfg {
        bool rdl{false};
        bool partial{true};       //!< use solve calls that do not run to completion
        bool deterministic{false}; //!< only use features whose outcome does not depend on time
        bool threads{false};
        bool jobs{true};          //!< allow for larger scheduling problems
        bool multi{true};
        int ops{6};
        bool heuristics{true};
        int maxKind{7};    //!< ways to stop searches (asynchronously from 2 on)
        bool plain{false}; //!< use the simple propagator in place of the theory
    };
    World(u64 index, u64 seed, Cfg const &cfg, bool thorough);
    ~World();
    //! Perform the next operation (returns false if there are no more).
    bool op();
    //! Destroy theory and control.
    void close();
    void finish(Case &parent, int number); //!< add log and counters to the parent
    Case c;
    Cfg cfg;
    u64 seed;
    Mon mon;
    Opts opts;
    std::unique_ptr<DLRun> run;
    std::unique_ptr<Session> s;
    std::vector<std::string> results; //!< what was observed by the operations
    int solves{0}, answers{0};

  private:
    void callback();
    void create();
    void partial();
    void queries();
    void misuse();
    void full();
    void record(SolveOut const &out);
    void checkPartial(SolveOut const &out, RefResult const &ref, std::string const &what, bool async);
    int done{0};
    void fatal();
    bool first{true}, ended{false};
    std::atomic<i64> interruptIn{-1};
};

//! Perform all operations. If something is wrong, then try whether the same happens with the simple propagator.
//! Returns false if libclingo is to blame.
bool runWorld(Case &parent, World &w);

//! The next run uses the simple propagator.
extern thread_local bool nextPlain;
//! The next clingo_control_register_propagator call is attached to this monitor.
extern thread_local Mon *nextMon;

// fault injection
struct Fault {
    std::atomic<bool> on{false};
    std::atomic<i64> countdown{-1};
    std::atomic<u64> calls{0};
    std::atomic<u64> fired{0};
    std::atomic<bool> alloc{false}; //!< inject into operator new instead of solver API
    std::atomic<bool> sticky{false};
    char const *site{nullptr};
    int kind{0};
    std::vector<std::pair<char const *, char const *>> *record{nullptr}; //!< what the theory was doing at the possible points of failure
};
//! Callback that is currently running.
extern thread_local char const *inCallback;
struct CallbackScope {
    char const *old;
    CallbackScope(char const *cb) : old{inCallback} { inCallback = cb; }
    ~CallbackScope() { inCallback = old; }
};
extern Fault fault;
//! Code of the theory is running on this thread.
extern thread_local int inTheory;
struct Scope {
    int old;
    Scope() : old{inTheory} { inTheory = 1; }
    ~Scope() { inTheory = old; }
};
//! Calls of libclingo that add to tables shared by all threads are performed one at a time.
//!
//! The tables of libclingo 5.6.2 (symbols, strings) get corrupted otherwise, if several controls are used for the first time.
struct TableScope {
    TableScope();
    ~TableScope();
    TableScope(TableScope const &) = delete;
    TableScope &operator=(TableScope const &) = delete;
};

struct OutScope {
    int old;
    OutScope() : old{inTheory} { inTheory = 0; }
    ~OutScope() { inTheory = old; }
};

// }}}

} // namespace M
