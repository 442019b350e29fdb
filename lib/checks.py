"""The checks: which worker code decides which property, how much of it, and what counts."""

GEN = ("programs are generated from VERIF_SEED (choices, facts, body and head difference constraints with all relations "
       "and notations, dependent constraints, random options of clingo-dl and of the solver); ")
ASSUME = ["libclingo 5.6.2 as installed is trusted (its own answers for programs without theory are the reference)",
          "weights are small enough that path sums fit into 32 bits"]


def asan(files, quick, thorough, **kw):
    return dict(variant="asan", files=files, quick=quick, thorough=thorough, **kw)


CHECKS = {
    "C01": dict(
        technique='runtime monitor: offline oracle over reported models (ASan/UBSan build)',
        note='every reported assignment of generated runs is evaluated against independently rendered constraints',
        parts=[asan(["checks_answers.cc"], 6000, 60000)],
        rule=GEN + "a case is non-trivial if at least one answer with an assignment was reported and tested",
        minimum={"nontrivial": 1000}, assumptions=ASSUME),
    "C02": dict(
        technique='runtime monitor: differential oracle against reference enumeration (ASan/UBSan build)',
        note='all answers of generated runs compared with an independent enumeration by clingo plus Bellman-Ford',
        parts=[asan(["checks_answers.cc"], 12000, 120000)],
        rule=GEN + "a case is non-trivial if the reference has more than one answer",
        minimum={"nontrivial": 2000}, assumptions=ASSUME),
    "C03": dict(
        technique='runtime monitor: metamorphic comparison of runs under many option settings (ASan/UBSan build)',
        note='answers with values compared between option settings',
        parts=[asan(["checks_answers.cc"], 4000, 40000)],
        rule=GEN + "each case is solved under several option settings; non-trivial if there is more than one answer",
        minimum={"nontrivial": 500}, assumptions=ASSUME),
    "C04": dict(
        technique='runtime monitor: online checker of every clause and solver call (interposed solver API, ASan/UBSan build)',
        note='each clause is checked for implication with an independent consistency test; protocol automaton per callback',
        parts=[asan(["checks_trace.cc"], 8000, 80000)],
        rule=GEN + "a case is non-trivial if the theory added at least one clause during search",
        minimum={"nontrivial": 1000, "search clauses checked": 20000}, assumptions=ASSUME),
    "C05": dict(
        technique='runtime monitor: online checker at every propagation fixpoint (ASan/UBSan build)',
        note='a second propagator inspects each fixpoint and tests the asserted constraints for consistency',
        parts=[asan(["checks_trace.cc"], 8000, 80000)],
        rule=GEN + "a case is non-trivial if more than one propagation fixpoint was inspected",
        minimum={"nontrivial": 1000, "fixpoints checked": 100000}, assumptions=ASSUME),
    "C06": dict(
        technique='runtime monitor: online checker at every propagation fixpoint (ASan/UBSan build)',
        note='a second propagator inspects each fixpoint and tests each undecided constraint against the documented strength',
        parts=[asan(["checks_trace.cc"], 8000, 80000)],
        rule=GEN + "a case is non-trivial if undecided constraint literals were inspected at fixpoints",
        minimum={"nontrivial": 1000, "undecided constraint literals checked": 100000}, assumptions=ASSUME),
    "C07": dict(
        technique='runtime monitor: differential oracle over session histories (ASan/UBSan build)',
        note='answers of every solve call of random sessions compared with a from-scratch reference',
        parts=[asan(["checks_multi.cc"], 2400, 60000)],
        rule=GEN + "sessions of up to five steps with externals, assumptions, and changing thread counts; non-trivial if "
        "more than one solve call had answers",
        maximum={"skipped (libclingo fails without the theory, too)": 0.006},
        minimum={"nontrivial": 500, "solves": 2000}, assumptions=ASSUME),
    "C08": dict(
        technique='runtime monitor: trace oracle over optimization runs against a reference optimum (ASan/UBSan build)',
        note='the sequence of models and the reported bounds compared with the optimum computed from the reference answers',
        parts=[asan(["checks_opt.cc"], 6000, 60000)],
        rule=GEN + "one variable is minimized with random initial bound, factor, strategy and limits; non-trivial if at "
        "least one model was reported",
        minimum={"nontrivial": 500}, assumptions=ASSUME),
    "C09": dict(
        technique='runtime monitor: consistency oracle over all queries in every model and between solve calls (ASan/UBSan build)',
        note='the C interface is queried in all ways in each model of sessions in all solve modes, both number types',
        parts=[asan(["checks_values.cc"], 2200, 60000)],
        rule=GEN + "sessions with handler, yielding, and asynchronous solving, up to four threads, and both number types; "
        "non-trivial if a model was queried",
        minimum={"nontrivial": 300, "values queried": 100000, "variables without value": 2500,
                 "unknown symbols looked up": 50000}, assumptions=ASSUME),
    "C10": dict(
        technique='runtime monitor: metamorphic probes of generated expressions of known meaning (ASan/UBSan build)',
        note='each generated constraint is probed with fixed differences around its constant; out of range constants need errors',
        parts=[asan(["checks_expr.cc"], 24000, 300000)],
        rule="expressions of known linear form are generated from VERIF_SEED (split and scaled terms, parentheses, exact and "
        "truncating division, string numbers, arithmetic in names, extreme constants); distinct expressions count",
        minimum={"nontrivial": 10000, "probes": 50000, "numbers out of range rejected": 300},
        assumptions=["libclingo 5.6.2 as installed is trusted",
                     "sums of weights and negated values beyond 32 bits are out of scope"]),
    "C11": dict(
        technique='runtime monitor: differential oracle over statements before and after rewriting and over answers (ASan/UBSan build)',
        note='rewritten statements compared with libclingo pool expansion plus renaming; shifting compared by answers',
        parts=[asan(["checks_rewrite.cc"], 12000, 150000)],
        rule="statements of all kinds, programs with pools, and programs with integrity constraints are generated from "
        "VERIF_SEED; distinct programs count",
        minimum={"nontrivial": 4000, "statements": 20000, "programs with shifting": 800, "constraints rewritten": 10000},
        assumptions=["libclingo 5.6.2 as installed is trusted (parsing, printing and unpooling of statements)"]),
    "C12": dict(
        technique='runtime monitor: accept/reject oracle over malformed and well-formed constraints (ASan/UBSan build)',
        note='31 kinds of malformed constraints in all positions must be rejected; random terms judged by an independent parser',
        parts=[asan(["checks_expr.cc"], 24000, 300000)],
        rule="malformed constraints of 20 categories and random theory terms are generated from VERIF_SEED and placed in "
        "heads, bodies and integrity constraints; distinct constraints count",
        minimum={"nontrivial": 8000, "well-formed constraints accepted": 1000,
                 "random malformed constraints rejected": 400, "malformed: several elements": 50},
        assumptions=["libclingo 5.6.2 as installed is trusted"]),
    "C15": dict(
        technique='runtime monitor: accept/reject oracle plus trace comparison against canonical configuration (ASan/UBSan build)',
        note='sequences of valid and invalid values through the API and the command line; the search has to equal the one of '
        'the canonical configuration, counters have to fit each thread, and the order of edges is probed',
        parts=[asan(["checks_config.cc"], 5000, 80000)],
        rule="random sequences of valid and invalid option values, for API and command line, are generated from VERIF_SEED; "
        "non-trivial if the configured theory added clauses or a command line was rejected",
        minimum={"nontrivial": 1000, "values accepted": 3000, "values rejected": 1500, "keys rejected": 500,
                 "order of edges probed": 100, "runs compared with canonical configuration": 800,
                 "threads with full propagation": 300},
        assumptions=["libclingo 5.6.2 as installed is trusted; with one thread its search is deterministic",
                     "a value for all threads given after one for a single thread is not tested"]),
    "C16": dict(
        technique='runtime monitor: reported statistics compared with counts of an independent observer (ASan/UBSan build)',
        note='sizes, mutexes, components and counters per thread recomputed from theory atoms, watches, changes, and clauses',
        parts=[asan(["checks_stats.cc"], 8000, 100000)],
        rule=GEN + "sessions with changing numbers of threads, externals and assumptions; statistics are read after each "
        "solve call; non-trivial if more than one report was checked",
        minimum={"nontrivial": 1500, "reports": 5000, "sizes checked": 4000, "several components": 1500, "mutexes": 8000,
                 "counters of edges bounded from both sides": 2000, "entries of former threads": 800,
                 "costs of full propagation": 2000},
        assumptions=["libclingo 5.6.2 as installed is trusted"]),
    "C17": dict(
        technique='runtime monitor: differential oracle in exact arithmetic over rdl runs (ASan/UBSan build)',
        note='answers and values of generated real-valued programs compared with a reference over multiples of 10^-6',
        parts=[asan(["checks_rdl.cc"], 9000, 120000)],
        rule="rdl programs with decimal constants in many notations (at most six decimals, at most three with strict "
        "inequalities), single and multi-shot, are generated from VERIF_SEED; non-trivial if a program with decimals has answers",
        maximum={"skipped (libclingo fails without the theory, too)": 0.006},
        minimum={"nontrivial": 1500, "answers checked": 20000, "decimal constants": 8000, "unsatisfiable": 500,
                 "programs with strict inequalities": 1000},
        assumptions=["libclingo 5.6.2 as installed is trusted",
                     "constants are multiples of 10^-6 (values are reported with six decimals)"]),
    "C18": dict(
        technique='sanitizers (ASan, UBSan, LSan, assertions) and valgrind (uninitialized values) over random lifecycles with answers checked',
        note='random operation sequences over up to three theories: create, configure, misuse, solve in all ways, reads, destroy',
        parts=[asan(["checks_life.cc", "world.cc", "checks_rdl.cc"], 1600, 40000),
               dict(variant="vg", files=["checks_life.cc", "world.cc", "checks_rdl.cc"], quick=240, thorough=4000),
               dict(variant="vg", files=["checks_expr.cc"], check="C12", quick=240, thorough=4000)],
        rule=GEN + "each case performs a random sequence of operations on up to three theories that are alive at the same "
        "time, followed by a leak check; some of them and some constraint rewritings (C12) are repeated under valgrind; "
        "non-trivial if at least one solve call was performed",
        minimum={"nontrivial": 600, "solve calls": 3000, "leak checks": 1000, "errors reported": 200,
                 "errors during initialization": 100, "theories destroyed while others are alive": 300},
        maximum={"skipped (libclingo fails without the theory, too)": 0.005,
                 "stopped searches reported as unsatisfiable": 0.002},
        assumptions=["libclingo 5.6.2 as installed is trusted and not instrumented",
                     "leaks are only looked for in single-threaded solving (libclingo leaks in parallel solving)"]),
    "C21": dict(
        technique='runtime monitor: differential oracle over stopped searches and searches thereafter (ASan/UBSan build)',
        note='searches stopped by handler, limit, close, cancel, interrupt, and timeouts in all modes, then complete searches',
        parts=[asan(["checks_life.cc", "world.cc", "checks_rdl.cc"], 4000, 80000)],
        rule=GEN + "sessions mix solve calls stopped in eight ways at random points with complete ones, with up to four "
        "threads; long searches have to stop within 25 s; non-trivial if more than one call was made and one ended early",
        minimum={"nontrivial": 1200, "solve calls ended early": 2000, "solve calls interrupted": 1500, "long searches": 400,
                 "searches after stopped ones": 200},
        maximum={"skipped (libclingo fails without the theory, too)": 0.006,
                 "stopped searches reported as unsatisfiable": 0.002},
        assumptions=["libclingo 5.6.2 as installed is trusted except for failures that also happen without the theory"]),
    "C23": dict(
        technique='runtime monitor: metamorphic comparison of traces of theories used alone, alternately, and in threads (ASan/UBSan build); ThreadSanitizer on theories used in threads of fresh processes',
        note='search trace, answers, values, and statistics of each of several theories have to equal those if used alone',
        parts=[asan(["checks_life.cc", "world.cc", "checks_rdl.cc"], 1600, 30000),
               dict(variant="tsan", files=["checks_life.cc", "world.cc", "checks_rdl.cc"], quick=400, thorough=6000, chunk=4)],
        rule=GEN + "two to four independent sessions with different options (number types, heuristics) are performed alone, "
        "alternately, and concurrently (before or after the single runs); a second part repeats this under ThreadSanitizer in fresh "
        "processes; non-trivial if clauses were added",
        minimum={"nontrivial": 400, "solve calls compared": 5000, "operations alternating": 4000,
                 "theories destroyed while others are in use": 700},
        assumptions=["libclingo 5.6.2 as installed is trusted; with one thread its search is deterministic",
                     "calls that intern symbols in libclingo are serialized because its tables are not thread-safe"]),
    "C19": {
        "technique": "runtime monitor with fault injection: every solver call and allocation made by the theory can fail (ASan, UBSan, LSan build)",
        "note": "failures are injected one at a time or permanently at points spread over all operations and callbacks",
        "rule": "sessions with up to three solve calls are generated from VERIF_SEED and first performed without failures while "
                "the possible points of failure are recorded; then points in each operation and kind of callback are selected and "
                "the session is repeated with a failure of the solver (three kinds of errors) or of operator new at this point; "
                "non-trivial if the session was completed without failure before and after",
        "parts": [{"variant": "asan", "files": ["checks_fault.cc", "world.cc", "checks_rdl.cc"], "quick": 250, "thorough": 4000,
                   "defines": ["-DMON_ALLOC"]}],
        "minimum": {"nontrivial": 100, "failures injected": 3000, "failures in init": 500, "failures in propagate": 250,
                    "failures in check": 200, "failures in on_model": 300, "failures in on_statistics": 150, "repetitions": 200,
                    "leak checks": 100, "failing solve calls after a failure": 400, "successful solve calls after a failure": 300},
        "maximum": {"processes given up because libclingo terminates": 0.04},
        "assumptions": ["libclingo 5.6.2 terminates if a propagator fails for the first time while it cleans up after the search "
                        "(destructors propagate) or in other threads than the main one; sessions are therefore sequential and such "
                        "terminations in libclingo are not counted",
                        "clingo_ast_build never fails because clingo.hh ignores its errors"],
    },
    "C13": {
        "technique": "data race detection (ThreadSanitizer) under parallel workloads with injected delays",
        "note": "the theory and the monitor are instrumented; libclingo is not",
        "rule": "programs (scheduling problems and random instances) and options per thread are generated from VERIF_SEED and solved "
                "with 2 to 5 threads in competition or splitting mode repeatedly with changing numbers of threads, with reads of the "
                "assignment in model handlers, statistics, and clause exchange; sessions with several steps and stopped calls, one "
                "or two at a time; non-trivial if at least two threads executed callbacks of the theory or a session solved",
        "parts": [{"variant": "tsan", "files": ["checks_par.cc", "world.cc", "checks_rdl.cc"], "quick": 4000, "thorough": 80000}],
        "minimum": {"nontrivial": 1200, "runs with concurrent threads": 600, "callbacks": 250000, "threads that reported models": 1000,
                    "solve calls in sessions": 150},
        "assumptions": ["libclingo 5.6.2 as installed is trusted and not instrumented; synchronization by atomics in libclingo is "
                        "not visible to ThreadSanitizer"],
    },
    "C14": {
        "technique": "runtime monitor: differential oracle of parallel and sequential enumerations (ASan/UBSan build)",
        "note": "multisets of answers with values are compared with sequential runs and with the reference",
        "rule": "programs (scheduling problems and random instances) and options per thread are generated from VERIF_SEED; each is "
                "enumerated sequentially and in parallel with 2 to 8 threads in competition or splitting mode, with clause exchange "
                "and injected delays; non-trivial if there are at least two answers",
        "parts": [{"variant": "asan", "files": ["checks_par.cc", "world.cc", "checks_rdl.cc"], "quick": 700, "thorough": 20000}],
        "minimum": {"nontrivial": 150, "runs": 800, "runs with concurrent threads": 500, "runs with models of several threads": 300,
                    "models of other threads": 60000, "sequential runs compared with the reference": 60},
        "maximum": {"skipped (libclingo fails without the theory, too)": 0.005},
        "assumptions": ["libclingo 5.6.2 as installed is trusted except for failures that also happen without the theory"],
    },
    "C22": dict(
        technique='runtime monitor: online oracle for every decision of the solver (ASan/UBSan build)',
        note='the decide callback is intercepted; sign chosen compared with the values assigned at that moment; answers compared',
        parts=[asan(["checks_dec.cc"], 8000, 120000)],
        rule=GEN + "one or two theories with own heuristics at a time, integer and real-valued; non-trivial if a decision over a "
        "literal with constraints whose variables have values was judged",
        minimum={"nontrivial": 1500, "decisions judged with min": 6000, "decisions judged with max": 6000,
                 "decisions judged with switched sign": 10000, "answers": 20000},
        assumptions=["libclingo 5.6.2 as installed is trusted",
                     "decisions over constraints with a variable that has no value yet are not judged"]),
    "C20": dict(
        technique='runtime monitor: the real program as a process, its output compared with library and reference (ASan/UBSan build)',
        note='answers, values, statistics, result line and exit code of generated command lines; errors; option values',
        parts=[asan(["checks_app.cc"], 4500, 60000, app=True)],
        rule=GEN + "programs are distributed over files, includes and standard input and run with random options, output formats, "
        "limits, minimization, and with erroneous inputs and options; non-trivial if answers were printed or an error expected",
        minimum={"nontrivial": 1200, "answers printed": 8000, "erroneous runs": 200, "minimizations": 150,
                 "option values rejected": 60, "option values accepted": 60, "statistics compared": 800,
                 "stopped before all answers were found": 50},
        assumptions=["libclingo 5.6.2 as installed is trusted",
                     "signals are not sent to the program: libclingo crashes if they arrive while it starts or shuts down"]),
    "C24": dict(
        technique='runtime monitor: differential oracle between the Python module and the program, plus comparison of interfaces',
        note='the module is built from its C source and used with a stand-in for the Python package of clingo, which is missing here; '
        'answers, values, statistics, errors and the Python program are compared with clingo-dl',
        parts=[dict(variant="rel", files=[], module=True, quick=1800, thorough=40000)],
        rule="programs (one and two steps), options, and misuse are generated from VERIF_SEED and given to the module, to python -m "
        "clingodl, and to the program clingo-dl; the interface is compared function by function; non-trivial if a program has more "
        "than one answer",
        minimum={"nontrivial": 500, "answers compared": 50000, "values compared": 100000, "statistics compared": 400,
                 "runs of the Python program": 80, "functions compared": 100, "invalid options rejected": 30,
                 "malformed constraints rejected": 30, "sessions with two steps": 100, "models queried while paused": 10000},
        assumptions=["the stand-in for the Python package of clingo behaves like the original where it is used",
                     "C01 to C20 judge the answers of the library itself"]),
    "C25": dict(
        technique='runtime monitor: metamorphic comparison of equal runs in different processes (memory layout, allocator, and fill '
        'patterns varied)',
        note='search trace, answers, values, and statistics of the same session have to be the same in every process',
        parts=[dict(variant="rel", files=["checks_repro.cc", "world.cc", "checks_rdl.cc"], quick=3000, thorough=60000)],
        rule=GEN + "three to six sessions (several steps, all options) are performed in each of three processes: without address "
        "randomization, with randomization, padding and a fill pattern for allocated and freed memory, and with a different "
        "configuration of the allocator; non-trivial if clauses were added",
        minimum={"nontrivial": 1000, "processes compared": 3000, "parts compared": 30000},
        assumptions=["libclingo 5.6.2 as installed is trusted; with one thread its search is deterministic"]),
    "C26": dict(
        technique='runtime monitor: large instances with answers known by construction (optimized and ASan/UBSan builds)',
        note='answers and values of instances with up to 70000 variables, constraints, decision levels, components',
        parts=[dict(variant="rel", files=["checks_size.cc"], quick=128, thorough=3000, args=["--cpu", "300", "--wall", "600"]),
               asan(["checks_size.cc"], 64, 3000, args=["--cpu", "300", "--wall", "600"])],
        rule="ten families (long chains with one cycle closed or not, trees and stars, many components, many decisions, constraints over "
        "the same variables, constraints that depend on the same atom, detection of mutual exclusion with a large queue, "
        "disequalities along a path, operations on one machine, sessions of many steps) of random size, order, and "
        "options from VERIF_SEED; sizes go beyond 65536 in the optimized and up to 12000 in the instrumented build; every case is "
        "non-trivial",
        minimum={"nontrivial": 80, "chains": 5, "components": 100000, "decisions": 150000, "parallel constraints": 500,
                 "disequalities": 4000, "operations": 50, "steps": 1000, "trees": 8, "constraints of one atom": 1000000,
                 "mutual exclusions": 8},
        assumptions=["libclingo 5.6.2 as installed is trusted",
                     "instances for which the theory stores quadratically many values are not covered"]),
}
