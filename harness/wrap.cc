// Interposition of the clingo C API: event monitoring, fault injection, delays.
#include "dlmon.hh"

#include <algorithm>
#include <cstdarg>
#include <new>
#include <thread>
#include <unistd.h>

namespace M {

Fault fault;
thread_local int inTheory{0};
thread_local char const *inCallback{nullptr};
thread_local Mon *nextMon{nullptr};

namespace {

// Note: the lock is hidden from ThreadSanitizer to not order accesses of the theory in different threads
#if defined(__clang__)
#define MON_HIDDEN __attribute__((noinline, disable_sanitizer_instrumentation))
#else
#define MON_HIDDEN __attribute__((noinline))
#endif
int tableLock{0};
thread_local int tableDepth{0};
MON_HIDDEN bool tryTables() { return __atomic_exchange_n(&tableLock, 1, __ATOMIC_ACQUIRE) == 0; }
MON_HIDDEN void releaseTables() { __atomic_store_n(&tableLock, 0, __ATOMIC_RELEASE); }

} // namespace

TableScope::TableScope() {
    if (tableDepth++ == 0) {
        while (!tryTables()) {
            usleep(20);
        }
    }
}

TableScope::~TableScope() {
    if (--tableDepth == 0) {
        releaseTables();
    }
}

namespace {

thread_local Mon *curMon{nullptr};
thread_local CallState *curCall{nullptr};
thread_local clingo_assignment_t const *curAss{nullptr};
thread_local bool curInit{false};
thread_local u64 delaySeed{0};

bool faultCount(char const *site) {
    if (!fault.on.load(std::memory_order_relaxed)) {
        return false;
    }
    fault.calls.fetch_add(1, std::memory_order_relaxed);
    if (fault.record != nullptr) {
        fault.record->emplace_back(inCallback, site);
    }
    auto c = fault.countdown.fetch_sub(1, std::memory_order_relaxed);
    if (c == 0 || (c < 0 && fault.sticky)) {
        fault.fired.fetch_add(1, std::memory_order_relaxed);
        fault.site = site;
        return true;
    }
    return false;
}

bool faultHit(char const *site) {
    if (fault.alloc.load(std::memory_order_relaxed) || !faultCount(site)) {
        return false;
    }
    OutScope os;
    clingo_set_error(fault.kind == 1 ? clingo_error_bad_alloc
                     : fault.kind == 2 ? clingo_error_logic
                                       : clingo_error_runtime,
                     "injected fault");
    return true;
}

void delayPoint(Mon &mon) {
    if (mon.delay > 0) {
        if (delaySeed == 0) {
            delaySeed = std::hash<std::thread::id>{}(std::this_thread::get_id()) | 1;
        }
        delaySeed = delaySeed * 6364136223846793005ULL + 1442695040888963407ULL;
        auto x = (delaySeed >> 33) % 100;
        if (static_cast<int>(x) < mon.delay) {
            if (x % 4 == 0) {
                usleep((delaySeed >> 40) % 300);
            } else {
                std::this_thread::yield();
            }
        }
    }
}

struct Reg {
    clingo_propagator_t orig;
    clingo_propagator_t ours;
    void *data;
    Mon *mon;
};

struct Enter {
    Mon *mon;
    CallState *call;
    clingo_assignment_t const *ass;
    bool init;
    int in;
    CallState state;
    Enter(Mon *m, clingo_assignment_t const *a, bool isInit)
        : mon{curMon}, call{curCall}, ass{curAss}, init{curInit}, in{inTheory} {
        if (curCall != nullptr) {
            m->nNested++;
        }
        curMon = m;
        curCall = &state;
        curAss = a;
        curInit = isInit;
        inTheory = 1;
    }
    ~Enter() {
        curMon = mon;
        curCall = call;
        curAss = ass;
        curInit = init;
        inTheory = in;
    }
};

bool cbInit(clingo_propagate_init_t *init, void *data) {
    auto &r = *static_cast<Reg *>(data);
    OutScope os;
    CallbackScope cs{"init"};
    r.mon->nInit++;
    r.mon->mix(1);
    r.mon->initBegin(init);
    if (r.mon->onCallback) {
        r.mon->onCallback("init", nullptr);
    }
    bool ret = true;
    {
        Enter e{r.mon, clingo_propagate_init_assignment(init), true};
        ret = r.orig.init(init, r.data);
    }
    r.mon->initEnd(init, ret);
    if (r.mon->afterInit) {
        r.mon->afterInit(init);
    }
    return ret;
}

bool cbPropagate(clingo_propagate_control_t *ctl, clingo_literal_t const *changes, size_t size, void *data) {
    auto &r = *static_cast<Reg *>(data);
    OutScope os;
    CallbackScope cs{"propagate"};
    r.mon->nPropagate++;
    auto const *ass = clingo_propagate_control_assignment(ctl);
    if (r.mon->hashTrace) {
        r.mon->mix(2);
        for (size_t i = 0; i < size; ++i) {
            r.mon->mix(static_cast<u64>(static_cast<i64>(changes[i])) + 77);
        }
    }
    u64 lvl = clingo_assignment_decision_level(ass);
    for (auto old = r.mon->maxLevel.load(); lvl > old && !r.mon->maxLevel.compare_exchange_weak(old, lvl);) {
    }
    if (r.mon->onCallback) {
        r.mon->onCallback("propagate", ctl);
    }
    delayPoint(*r.mon);
    bool ret = true;
    std::vector<int> saved;
    if (r.mon->onChanges) {
        saved.assign(changes, changes + size);
    }
    {
        Enter e{r.mon, ass, false};
        ret = r.orig.propagate(ctl, changes, size, r.data);
        if (r.mon->onChanges) {
            OutScope os;
            r.mon->onChanges(clingo_propagate_control_thread_id(ctl), static_cast<unsigned>(lvl), saved.data(),
                             saved.size(), e.state.refused);
        }
    }
    delayPoint(*r.mon);
    if (r.mon->afterPropagate) {
        r.mon->afterPropagate(ctl, ret);
    }
    return ret;
}

void cbUndo(clingo_propagate_control_t const *ctl, clingo_literal_t const *changes, size_t size, void *data) {
    auto &r = *static_cast<Reg *>(data);
    OutScope os;
    CallbackScope cs{"undo"};
    r.mon->nUndo++;
    r.mon->mix(3);
    if (r.mon->onCallback) {
        r.mon->onCallback("undo", nullptr);
    }
    Enter e{r.mon, clingo_propagate_control_assignment(ctl), false};
    r.orig.undo(ctl, changes, size, r.data);
}

bool cbCheck(clingo_propagate_control_t *ctl, void *data) {
    auto &r = *static_cast<Reg *>(data);
    OutScope os;
    CallbackScope cs{"check"};
    r.mon->nCheck++;
    if (r.mon->onCallback) {
        r.mon->onCallback("check", ctl);
    }
    delayPoint(*r.mon);
    Enter e{r.mon, clingo_propagate_control_assignment(ctl), false};
    return r.orig.check(ctl, r.data);
}

bool cbDecide(clingo_id_t thread, clingo_assignment_t const *ass, clingo_literal_t fallback, void *data,
              clingo_literal_t *decision) {
    auto &r = *static_cast<Reg *>(data);
    OutScope os;
    CallbackScope cs{"decide"};
    r.mon->nDecide++;
    if (r.mon->onCallback) {
        r.mon->onCallback("decide", nullptr);
    }
    bool ret = true;
    {
        Enter e{r.mon, ass, false};
        ret = r.orig.decide(thread, ass, fallback, r.data, decision);
    }
    r.mon->mix(4);
    r.mon->mix(static_cast<u64>(static_cast<i64>(*decision)));
    if (ret && r.mon->onDecide) {
        r.mon->onDecide(thread, ass, fallback, *decision);
    }
    return ret;
}

} // namespace

Mon::~Mon() = default;

} // namespace M

using M::curMon, M::curCall, M::curAss, M::faultHit;

#include "wrap_gen.inc"

extern "C" bool __wrap_clingo_control_register_propagator(clingo_control_t *control,
                                                          clingo_propagator_t const *propagator, void *data,
                                                          bool sequential) {
    if (M::inTheory != 0 && faultHit("clingo_control_register_propagator")) {
        return false;
    }
    auto *mon = M::nextMon;
    M::OutScope os;
    if (mon == nullptr) {
        return __real_clingo_control_register_propagator(control, propagator, data, sequential);
    }
    M::nextMon = nullptr;
    auto reg = std::make_shared<M::Reg>();
    reg->orig = *propagator;
    reg->data = data;
    reg->mon = mon;
    reg->ours = {propagator->init != nullptr ? M::cbInit : nullptr,
                 propagator->propagate != nullptr ? M::cbPropagate : nullptr,
                 propagator->undo != nullptr ? M::cbUndo : nullptr, propagator->check != nullptr ? M::cbCheck : nullptr,
                 propagator->decide != nullptr ? M::cbDecide : nullptr};
    mon->owned.emplace_back(reg);
    return __real_clingo_control_register_propagator(control, &reg->ours, reg.get(), sequential);
}

extern "C" bool __wrap_clingo_propagate_init_add_literal(clingo_propagate_init_t *init, bool freeze,
                                                         clingo_literal_t *result) {
    if (M::inTheory != 0 && faultHit("clingo_propagate_init_add_literal")) {
        return false;
    }
    M::OutScope os;
    bool ret = __real_clingo_propagate_init_add_literal(init, freeze, result);
    if (ret && curMon != nullptr) {
        curMon->nLits++;
        curMon->aux.insert(std::abs(*result));
        curMon->mix(5);
    }
    return ret;
}

extern "C" bool __wrap_clingo_propagate_init_add_clause(clingo_propagate_init_t *init, clingo_literal_t const *clause,
                                                        size_t size, bool *result) {
    if (M::inTheory != 0 && faultHit("clingo_propagate_init_add_clause")) {
        return false;
    }
    M::OutScope os;
    bool ret = __real_clingo_propagate_init_add_clause(init, clause, size, result);
    if (ret && curMon != nullptr) {
        curMon->nInitClauses++;
        curMon->clause(true, curAss, clause, size, *result);
        if (curCall->refused) {
            curMon->error("clause added during initialization after the solver refused an earlier one");
        }
        if (!*result) {
            curMon->nRefused++;
            curCall->refused = true;
        }
    }
    return ret;
}

extern "C" bool __wrap_clingo_propagate_init_add_watch_to_thread(clingo_propagate_init_t *init, clingo_literal_t lit,
                                                                 clingo_id_t thread) {
    if (M::inTheory != 0 && faultHit("clingo_propagate_init_add_watch_to_thread")) {
        return false;
    }
    M::OutScope os;
    if (curMon != nullptr) {
        curMon->nWatchAdd++;
        auto n = clingo_propagate_init_number_of_threads(init);
        if (static_cast<int>(thread) >= n) {
            curMon->error("watch added for a thread that does not exist");
        }
        if (curMon->onWatch) {
            curMon->onWatch(true, thread, lit);
        }
    }
    return __real_clingo_propagate_init_add_watch_to_thread(init, lit, thread);
}

extern "C" bool __wrap_clingo_propagate_control_add_watch(clingo_propagate_control_t *ctl, clingo_literal_t lit) {
    if (M::inTheory != 0 && faultHit("clingo_propagate_control_add_watch")) {
        return false;
    }
    M::OutScope os;
    if (curMon != nullptr) {
        curMon->nWatchAdd++;
    }
    return __real_clingo_propagate_control_add_watch(ctl, lit);
}

extern "C" bool __wrap_clingo_propagate_control_add_clause(clingo_propagate_control_t *ctl,
                                                           clingo_literal_t const *clause, size_t size,
                                                           clingo_clause_type_t type, bool *result) {
    if (M::inTheory != 0 && faultHit("clingo_propagate_control_add_clause")) {
        return false;
    }
    M::OutScope os;
    if (curMon != nullptr) {
        curMon->nClauses++;
        M::delayPoint(*curMon);
        curMon->clause(false, curAss, clause, size, true);
        if (curMon->onSearchClause) {
            curMon->onSearchClause(clingo_propagate_control_thread_id(ctl));
        }
        if (curCall->refused) {
            curMon->error("clause added in a callback after the solver refused a clause or propagation");
        }
    }
    bool ret = __real_clingo_propagate_control_add_clause(ctl, clause, size, type, result);
    if (ret && curMon != nullptr && !*result) {
        curMon->nRefused++;
        curCall->refused = true;
    }
    return ret;
}

extern "C" bool __wrap_clingo_propagate_control_propagate(clingo_propagate_control_t *ctl, bool *result) {
    if (M::inTheory != 0 && faultHit("clingo_propagate_control_propagate")) {
        return false;
    }
    M::OutScope os;
    if (curMon != nullptr && curCall->refused) {
        curMon->error("propagation requested in a callback after the solver refused a clause or propagation");
    }
    bool ret = __real_clingo_propagate_control_propagate(ctl, result);
    if (ret && curMon != nullptr && !*result) {
        curMon->nRefused++;
        curCall->refused = true;
    }
    return ret;
}

// Note: clingo.hh of libclingo 5.6.2 ignores errors of this function. Hence, it never fails here.
extern "C" bool __real_clingo_ast_build(clingo_ast_type_t type, clingo_ast_t **ast, ...);
extern "C" __attribute__((no_sanitize("address"))) bool __wrap_clingo_ast_build(clingo_ast_type_t type,
                                                                                  clingo_ast_t **ast, ...) {
    // forwards more arguments than there are
    va_list va;
    va_start(va, ast);
    void *a[12];
    for (auto &x : a) {
        x = va_arg(va, void *);
    }
    va_end(va);
    M::OutScope os;
    M::TableScope ts;
    return __real_clingo_ast_build(type, ast, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]);
}

#ifdef MON_ALLOC
// allocation failures in code of the theory
static void *monAlloc(size_t n) {
    if (M::inTheory != 0 && M::fault.alloc.load(std::memory_order_relaxed) &&
        M::fault.on.load(std::memory_order_relaxed)) {
        int old = M::inTheory;
        M::inTheory = 0;
        bool hit = M::faultCount("operator new");
        M::inTheory = old;
        if (hit) {
            throw std::bad_alloc();
        }
    }
    void *p = malloc(n == 0 ? 1 : n);
    if (p == nullptr) {
        throw std::bad_alloc();
    }
    return p;
}
void *operator new(size_t n) { return monAlloc(n); }
void *operator new[](size_t n) { return monAlloc(n); }
static void *tryAlloc(size_t n) noexcept { return malloc(n == 0 ? 1 : n); }
void *operator new(size_t n, std::nothrow_t const &) noexcept { return tryAlloc(n); }
void *operator new[](size_t n, std::nothrow_t const &) noexcept { return tryAlloc(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
#endif
