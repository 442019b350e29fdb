#!/usr/bin/env python3-vt
"""
Worker for the Python module: same command line and output as the other workers.

The module of the repository (DLMON_PY: a folder with the package clingodl as built by the driver) is used from Python, and
its answers, values, statistics, and errors are compared with those of the program clingo-dl (DLMON_APP) built from the same
sources.
"""
import collections, faulthandler, gc, hashlib, json, os, random, re, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.environ["DLMON_PY"], os.path.join(HERE, "pystub")]
sys.stdout = sys.__stdout__
REPO = os.environ.get("DLMON_REPO", "/repo")


class Violation(Exception):
    pass


class Case:
    def __init__(self, index, seed, counters):
        self.index, self.rng, self.counters = index, random.Random("%d %d" % (seed, index)), counters
        self.log, self.key = [], None

    def count(self, name, num=1):
        self.counters[name] += num


# --- programs -------------------------------------------------------------------------------------

RELS = ["<=", "<=", "<=", ">=", "<", ">", "=", "!="]
VARS = ["x", "y", "z", "f(1)", "f(a,2)", '"s t"', "(a,b)", "n", "p(q(1),\"u\")"]


def number(rng, rdl):
    num = rng.choice([0, 1, -1, 2, -2, 3, 5, -7, 13, 100])
    if rdl and rng.random() < 0.5:
        return ('"%s%d.%s"' % ("-" if num < 0 else "", abs(num), rng.choice(["5", "25", "125", "75"])))
    return str(num)


def program(rng, rdl):
    nvar = rng.randint(2, 5)
    names = rng.sample(VARS, nvar)
    heads, bodies = rng.randint(2, 6), 0 if rdl else rng.randint(0, 2)
    rels = ["<=", "<=", ">="] if rdl else RELS
    prg = ["{ %s }." % "; ".join("a(%d)" % i for i in range(heads))]
    for i in range(heads + bodies):
        u, v = rng.sample(names + ["0"], 2)
        if u == "0" and v == "0":
            continue
        term = rng.choice(["%s - %s" % (u, v)] * 4 + [u if u != "0" else v])
        con = "&diff { %s } %s %s" % (term, rng.choice(rels), number(rng, rdl))
        if i < heads:
            prg.append(rng.choice(["%s :- a(%d)."] * 5 + ["%s :- not a(%d)."]) % (con, i))
        else:
            prg.append("b(%d) :- %s." % (i, con))
    if rng.random() < 0.3:
        prg.append(":- a(0), not a(1).")
    if rng.random() < 0.2:
        prg.append("__hidden(1). c.")
    if rng.random() < 0.25:
        prg.append(rng.choice(["_visible(1).", "_v. -d.", "{ _w(__x) }.", "w__(1). -__e(1)."]))
    if rng.random() < 0.3:
        prg.append("#show a/1.")
        if bodies:
            prg.append("#show b/1.")
    return "\n".join(prg) + "\n"


def options(rng, rdl):
    res = []
    if rng.random() < 0.6:
        res.append(("propagate", rng.choice(["no", "inverse", "partial", "partial+", "zero", "full"])))
    if rng.random() < 0.3:
        res.append(("propagate-root", str(rng.randint(0, 5))))
    if rng.random() < 0.3:
        res.append(("propagate-budget", str(rng.randint(0, 5))))
    if rng.random() < 0.3:
        res.append(("add-mutexes", "%d,%d" % (rng.randint(0, 4), rng.randint(0, 20))))
    if rng.random() < 0.3:
        res.append(("sort-edges", rng.choice(["no", "weight", "weight-reversed", "potential", "potential-reversed"])))
    if rng.random() < 0.3:
        res.append(("dl-heuristic", rng.choice(["none", "min", "max"])))
    if rng.random() < 0.3:
        res.append(("shift-constraints", rng.choice(["yes", "no"])))
    if rng.random() < 0.3:
        res.append(("compute-components", rng.choice(["yes", "no"])))
    if rdl:
        res.append(("rdl", "yes"))
    return res


FLAGS = {"shift-constraints", "compute-components", "rdl"}


def command(opts):
    res = []
    for key, val in opts:
        if key in FLAGS:
            res.append("--" + ("" if val == "yes" else "no-") + key)
        else:
            res.append("--%s=%s" % (key, val))
    return res


def run(cmd, **kwargs):
    for _ in range(2):
        try:
            return subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                                  timeout=200, errors="replace", **kwargs)
        except subprocess.TimeoutExpired:
            pass
    raise Violation("no end: " + " ".join(cmd))


def split_values(terms):
    """Extract the values from dl/2 terms."""
    res = {}
    for term in terms:
        if not term.startswith("dl("):
            continue
        pos = term.rfind(",")
        res[term[3:pos]] = term[pos + 1:-1].strip('"')
    return res


def reference(case, prg, opts, work):
    """Answers of the program clingo-dl."""
    path = os.path.join(work, "prg.lp")
    with open(path, "w") as fh:
        fh.write(prg)
    res = run([os.environ["DLMON_APP"], "0", "--outf=2", "--stats", path] + command(opts))
    try:
        out = json.loads(res.stdout)
    except ValueError:
        return None, None, res.returncode
    answers = []
    for wit in out["Call"][-1].get("Witnesses", []):
        terms = wit["Value"]
        answers.append((tuple(sorted(t for t in terms if not re.match(r"dl\(.*,.*\)$", t))), tuple(sorted(split_values(terms).items()))))
    return sorted(answers), out, res.returncode


# --- cases ----------------------------------------------------------------------------------------

def fmt(val):
    return str(val) if isinstance(val, int) else "%.6f" % val


def timeless(stats):
    if isinstance(stats, dict):
        return {key: timeless(val) for key, val in stats.items() if "(s)" not in key}
    if isinstance(stats, list):
        return [timeless(val) for val in stats]
    return float(stats)


def use_library(case, work):
    import clingo, clingodl
    from clingo import ast
    rng = case.rng
    rdl = rng.random() < 0.25
    prg, opts = program(rng, rdl), options(rng, rdl)
    case.log += ["%% %s" % opts, prg]
    ref, out, code = reference(case, prg, opts, work)
    if ref is None or code not in (10, 20, 30):
        raise Violation("the program failed")
    thy = clingodl.ClingoDLTheory()
    other = clingodl.ClingoDLTheory() if rng.random() < 0.3 else None
    for key, val in opts:
        thy.configure(key, val)
    ctl = clingo.Control(["0", "--stats"])
    thy.register(ctl)
    with ast.ProgramBuilder(ctl) as bld:
        if rng.random() < 0.5:
            ast.parse_string(prg, lambda stm: thy.rewrite_ast(stm, bld.add))
        else:
            ast.parse_files([os.path.join(work, "prg.lp")], lambda stm: thy.rewrite_ast(stm, bld.add))
    ctl.ground([("base", [])])
    thy.prepare(ctl)
    answers = []

    def on_model(mdl):
        thy.on_model(mdl)
        atoms = [str(x) for x in mdl.symbols(shown=True)]
        terms = [str(x) for x in mdl.symbols(theory=True)]
        inspect(mdl, [x for x in atoms if not x.startswith("dl(")], terms)

    def inspect(mdl, atoms, terms):
        vals = {}
        for sym, val in thy.assignment(mdl.thread_id):
            if isinstance(val, float) != rdl:
                raise Violation("type of value %s of %s" % (val, sym))
            idx = thy.lookup_symbol(sym)
            if idx is None or not thy.get_symbol(idx) == sym:
                raise Violation("lookup and retrieval of %s differ" % sym)
            if not thy.has_value(mdl.thread_id, idx) or thy.get_value(mdl.thread_id, idx) != val:
                raise Violation("values of %s differ" % sym)
            if str(sym) in vals:
                raise Violation("%s visited repeatedly" % sym)
            vals[str(sym)] = fmt(val)
            case.count("values compared")
        if split_values(terms) != vals:
            raise Violation("terms %s differ from values %s" % (terms, vals))
        if thy.lookup_symbol(clingo.Function("unknown", [clingo.Number(mdl.number)])) is not None:
            raise Violation("value of an unknown symbol")
        answers.append((tuple(sorted(atoms)), tuple(sorted(vals.items()))))

    # previous steps of a session have no influence on the comparison with the complete program
    if rng.random() < 0.3:
        more = re.sub(r"\b([ab])\((\d+)\)", r"\1\1(\2)", re.sub(r"#show.*|__hidden.*|_v.*|\{ _w.*|w__.*", "", program(rng, rdl)))
        if "#show" in prg:
            more += "#show aa/1. #show bb/1.\n"
        case.log += ["% next step", more]
        ctl.solve(on_model=on_model)
        if sorted(answers) != ref:
            raise Violation("answers of first step: %s\nanswers of program: %s" % (sorted(answers)[:6], ref[:6]))
        answers.clear()
        ref, out, code = reference(case, prg + more, opts, work)
        if ref is None or code not in (10, 20, 30):
            raise Violation("the program failed")
        out = {}
        with ast.ProgramBuilder(ctl) as bld:
            ast.parse_string("#program step.\n" + more, lambda stm: thy.rewrite_ast(stm, bld.add))
        ctl.ground([("step", [])])
        thy.prepare(ctl)
        case.count("sessions with two steps")
    stats = []
    on_stats = (lambda step, accu: (stats.append(1), thy.on_statistics(step, accu))[1])
    if rng.random() < 0.5:
        ctl.solve(on_model=on_model, on_statistics=on_stats)
    else:
        with ctl.solve(on_model=on_model, on_statistics=on_stats, yield_=True) as hnd:
            last = 0
            for mdl in hnd:
                # the values are also available while the search is paused
                if len(answers) != last + 1:
                    raise Violation("model without callback")
                saved = answers.pop()
                inspect(mdl, list(saved[0]), [str(x) for x in mdl.symbols(theory=True)])
                if answers[-1] != saved:
                    raise Violation("answer changed from %s to %s" % (saved, answers[-1]))
                last += 1
                case.count("models queried while paused")
    if sorted(answers) != ref:
        raise Violation("answers of Python module: %s\nanswers of program: %s" % (sorted(answers)[:6], ref[:6]))
    case.count("answers compared", len(ref))
    if len(stats) != 1:
        raise Violation("statistics reported %d times" % len(stats))
    step = ctl.statistics.get("user_step", {}).get("DifferenceLogic")
    accu = ctl.statistics.get("user_accu", {}).get("DifferenceLogic")
    exp = out.get("Stats", {}).get("DifferenceLogic")
    if exp and not step:
        raise Violation("no statistics of the theory")
    if exp:
        # the same search is performed
        for one, two, what in ((exp, step, "program and module"), (step, accu, "step and accumulated ones")):
            if timeless(one) != timeless(two):
                raise Violation("statistics of %s differ: %s and %s" % (what, timeless(one), timeless(two)))
        case.count("statistics compared")
    if other is not None and next(iter(other.__class__.__mro__)) is not type(thy):
        raise Violation("type of theory")
    case.key = (prg, str(opts)) if len(ref) > 1 else None
    ctl.free()


def use_application(case, work):
    rng = case.rng
    rdl = rng.random() < 0.25
    prg, opts = program(rng, rdl), options(rng, rdl)
    case.log += ["%% python -m clingodl %s" % command(opts), prg]
    ref, _, code = reference(case, prg, opts, work)
    if ref is None or code not in (10, 20, 30):
        raise Violation("the program failed")
    env = dict(os.environ, PYTHONPATH=os.pathsep.join(sys.path[:2]))
    res = run(["python3-vt", "-m", "clingodl", "0", "--warn=none"] + command(opts) + [os.path.join(work, "prg.lp")], env=env)
    if res.returncode != code:
        raise Violation("exit code %d instead of %d\n%s" % (res.returncode, code, res.stderr[-500:]))
    answers = []
    lines = res.stdout.split("\n")
    for i, line in enumerate(lines):
        if line == "Assignment:":
            vals = re.findall(r'((?:[^ "(]|"[^"]*"|\((?:[^()"]|"[^"]*"|\((?:[^()"]|"[^"]*")*\))*\))+)=("?-?[\d.]+"?)(?: |$)', lines[i + 1])
            answers.append((lines[i - 1].strip(), tuple(sorted((k, v.strip('"')) for k, v in vals))))
    exp = []
    for atoms, vals in ref:
        exp.append((tuple(sorted(x for x in atoms if not re.match("-?__", x))), vals))
    got = sorted((tuple(sorted(x.split())), y) for x, y in answers)
    if got != sorted(exp):
        raise Violation("answers of Python program: %s\nanswers of program: %s" % (got[:6], sorted(exp)[:6]))
    case.count("answers printed", len(exp))
    case.count("runs of the Python program")
    case.key = (prg, str(opts)) if len(ref) > 1 else None


BAD = ["&diff { x - y } <= a.", "&diff { x - y - z } <= 1.", "&diff { 2*x } <= 1.", "&diff { x * y } <= 1.", "&diff { x, y } <= 1.",
       "&diff { x - y }.", "&diff { x; y } <= 1.", '&diff { x } <= "1.5".', "&diff { x : a } <= 1. {a}.", "&diff { x / 0 } <= 1.",
       "&diff { x } <= 99999*99999.", "a :- &diff { x } <= y*z."]
BADOPTS = [("propagate", "foo"), ("propagate-root", "-1"), ("propagate-budget", "x"), ("add-mutexes", "a"), ("sort-edges", ""),
           ("rdl", "maybe"), ("unknown", "1"), ("dl-heuristic", "avg"), ("propagate", "full,64"), ("compute-components", "2")]


def use_wrongly(case, work):
    import clingo, clingodl
    from clingo import ast
    rng = case.rng
    if rng.random() < 0.4:
        key, val = rng.choice(BADOPTS)
        case.log.append("%% %s = %s" % (key, val))
        try:
            clingodl.ClingoDLTheory().configure(key, val)
        except RuntimeError as exc:
            if not str(exc).strip():
                raise Violation("error without message") from exc
            case.count("invalid options rejected")
            return
        raise Violation("accepted %s=%s" % (key, val))
    if rng.random() < 0.3:
        case.log.append("% exception in callback")
        thy = clingodl.ClingoDLTheory()

        def fail(_stm):
            raise ValueError("stop here")

        try:
            ast.parse_string("&diff { x } <= 1.", lambda stm: thy.rewrite_ast(stm, fail))
        except ValueError:
            case.count("exceptions passed through")
            return
        raise Violation("exception lost")
    stm = rng.choice(BAD)
    case.log.append(stm)
    thy = clingodl.ClingoDLTheory()
    ctl = clingo.Control(["0"])
    thy.register(ctl)
    try:
        with ast.ProgramBuilder(ctl) as bld:
            ast.parse_string(stm, lambda x: thy.rewrite_ast(x, bld.add))
        ctl.ground([("base", [])])
        thy.prepare(ctl)
        ctl.solve()
    except RuntimeError as exc:
        case.count("malformed constraints rejected")
        case.key = stm if str(exc) else None
        return
    raise Violation("accepted " + stm)


def norm(typ):
    typ = re.sub(r"\b(struct|const)\b", "", typ)
    typ = typ.replace("_Bool", "bool").replace("clingodl_ast_callback_t", "bool(*)(clingo_ast_t *, void *)")
    typ = re.sub(r"\b(clingo(?:dl)?_(?!symbol|value_type)\w+?)_t\b", r"\1", typ).replace("clingo_symbol_t", "uint64_t").replace("clingodl_value_type_t", "int")
    typ = typ.replace("unsigned long", "uint64_t").replace("size_t", "uint64_t").replace("unsigned int", "uint32_t")
    return re.sub(r"\s+", "", typ)


def interface(case, work):
    """Compare the interface of the module with the header."""
    from clingodl._clingodl import ffi, lib
    header = REPO + "/libclingo-dl/clingo-dl.h"
    import sysconfig
    res = run(["gcc", "-fsyntax-only", "-D_CFFI_NO_LIMITED_API", "-Werror=incompatible-pointer-types", "-Werror=int-conversion",
               "-Werror=discarded-qualifiers", "-I" + sysconfig.get_paths()["include"], "-I" + REPO + "/libclingo-dl",
               REPO + "/libpyclingo-dl/_clingodl.c"])
    if res.returncode:
        raise Violation("the module does not fit the header: " + res.stderr[-1500:])
    src = os.path.join(work, "h.c")
    with open(src, "w") as fh:
        fh.write('#include "%s"\n' % header)
    res = run(["clang", "-Xclang", "-ast-dump=json", "-fsyntax-only", "-std=c11", src])
    if res.returncode:
        raise Violation("the header cannot be used from C: " + res.stderr[-500:])
    funs, enums = {}, {}
    for node in json.loads(res.stdout)["inner"]:
        if node["kind"] == "FunctionDecl" and node["name"].startswith("clingodl_"):
            funs[node["name"]] = node["type"]["qualType"]
        if node["kind"] == "EnumDecl":
            for const in node.get("inner", []):
                if const.get("name", "").startswith("clingodl_"):
                    enums[const["name"]] = None
    if len(funs) < 10:
        raise Violation("no functions found")
    for name, typ in sorted(funs.items()):
        try:
            ctype = ffi.typeof(getattr(lib, name))
        except AttributeError:
            raise Violation("function %s is not available in Python" % name) from None
        got = "%s(%s)" % (ctype.result.cname, ", ".join(x.cname for x in ctype.args))
        want = typ
        if norm(got) != norm(want):
            raise Violation("type of %s: %s in Python and %s in C" % (name, norm(got), norm(want)))
        case.count("functions compared")
    # constants, layout, version, and linkage
    prg = os.path.join(work, "c.c")
    with open(prg, "w") as fh:
        fh.write('#include "%s"\n#include <stdio.h>\n#include <stddef.h>\n' % header)
        fh.write("typedef void (*fun_t)(void);\nfun_t funs[] = {%s};\n" % ", ".join("(fun_t)%s" % x for x in funs))
        fh.write("int main(void) {\n  int a, b, c;\n  clingodl_version(&a, &b, &c);\n  clingodl_version(0, 0, 0);\n")
        fh.write('  printf("version %d.%d.%d %s %d.%d.%d\\n", a, b, c, CLINGODL_VERSION, CLINGODL_VERSION_MAJOR, CLINGODL_VERSION_MINOR, '
                 'CLINGODL_VERSION_REVISION);\n')
        for name in enums:
            fh.write('  printf("enum %s %%d\\n", %s);\n' % (name, name))
        for name in ("type", "int_number", "double_number", "symbol"):
            fh.write('  printf("field %s %%d %%d\\n", (int)offsetof(clingodl_value_t, %s), (int)sizeof(((clingodl_value_t*)0)->%s));\n' % ((name,) * 3))
        fh.write('  printf("size %d\\n", (int)sizeof(clingodl_value_t));\n  return sizeof(funs) == 0;\n}\n')
    shared = os.path.join(os.environ["DLMON_PY"], "libclingo-dl.so")
    res = run(["gcc", "-std=c11", "-Wall", "-Wextra", "-Werror", prg, "-o", os.path.join(work, "c"), shared, "-lclingo",
               "-Wl,-rpath," + os.environ["DLMON_PY"]])
    if res.returncode:
        raise Violation("a C program cannot use the library: " + res.stderr[-1500:])
    res = run([os.path.join(work, "c")])
    if res.returncode:
        raise Violation("a C program using the library failed: %d" % res.returncode)
    for line in res.stdout.strip().split("\n"):
        what = line.split()
        if what[0] == "version":
            if len(set(what[1:])) != 1:
                raise Violation("versions differ: " + line)
            got = [ffi.new("int*") for _ in range(3)]
            lib.clingodl_version(*got)
            if ".".join(str(x[0]) for x in got) != what[1]:
                raise Violation("versions differ in Python: " + line)
        elif what[0] == "enum":
            if getattr(lib, what[1], None) != int(what[2]):
                raise Violation("constant differs: " + line)
        elif what[0] == "field":
            if ffi.offsetof("clingodl_value_t", what[1]) != int(what[2]):
                raise Violation("layout differs: " + line)
        elif ffi.sizeof("clingodl_value_t") != int(what[1]):
            raise Violation("size differs: " + line)
        case.count("constants compared")
    res = run([os.environ["DLMON_APP"], "--version"])
    if lib and "version" in res.stdout.split("\n")[0].lower() and not re.search(re.escape(".".join(str(x[0]) for x in got)), res.stdout):
        raise Violation("version of the program differs: " + res.stdout.split("\n")[0])


def main():
    args = sys.argv[1:]
    args.pop(0)
    opt = {"from": 0, "stride": 1, "count": 1, "seed": 1, "out": "/dev/stdout", "status": "/dev/null", "budget": 240}
    only = None
    while args:
        arg = args.pop(0)
        if arg == "--thorough":
            continue
        if arg == "--only":
            only = int(args.pop(0))
        else:
            val = args.pop(0)
            opt[arg[2:]] = int(val) if re.match(r"\d+$", val) else val
    # the garbage collector must not free controls while cffi holds its lock
    gc.disable()
    counters, hashes, samples, start = collections.Counter(), set(), [], time.time()
    cases, bad, hit = 0, 0, False
    indices = [only] if only is not None else range(opt["from"], opt["from"] + opt["stride"] * opt["count"], opt["stride"])
    with open(opt["out"], "w") as out:
        for index in indices:
            if time.time() - start > opt["budget"]:
                hit = True
                break
            with open(opt["status"], "w") as st:
                st.write("%d\n" % index)
            case = Case(index, opt["seed"], counters)
            faulthandler.dump_traceback_later(500, exit=False)
            gc.collect()
            cases += 1
            kind = case.rng.random()
            try:
                with tempfile.TemporaryDirectory(prefix="dlmon.") as work:
                    if index % 160 == 0:
                        interface(case, work)
                    elif kind < 0.12:
                        use_application(case, work)
                    elif kind < 0.25:
                        use_wrongly(case, work)
                    else:
                        use_library(case, work)
            except Violation as exc:
                out.write(json.dumps({"violation": str(exc), "case": index, "log": "\n".join(case.log)}) + "\n")
                bad += 1
            except Exception as exc:  # pylint: disable=broad-except
                out.write(json.dumps({"violation": "%s: %s" % (type(exc).__name__, exc), "case": index, "log": "\n".join(case.log)}) + "\n")
                bad += 1
            out.flush()
            if bad >= 3:
                break
            if case.key is not None:
                hashes.add(hashlib.sha256(str(case.key).encode()).hexdigest()[:16])
                if len(samples) < 2:
                    samples.append("\n".join(case.log)[:1000])
        out.write(json.dumps({"summary": {"cases": cases, "nontrivial": len(hashes), "budget_hit": hit, "counters": dict(counters),
                                          "hashes": sorted(hashes), "tags": [], "samples": samples}}) + "\n")
    sys.exit(1 if bad else 0)


if __name__ == "__main__":
    main()
