#!/usr/bin/env python3
"""Mutation campaign: which small changes of clingo-dl do neither the tests nor the monitors see?

usage: mutate.py WORKDIR SEED COUNT [--files REGEX] [--checks C01,C02,...] [--factor F] [--jobs N]

Mutants are made in a copy of /repo below WORKDIR.  Those that compile and pass the test suite are given to the workers of
the checks (with a fraction of the cases of the quick tier) until one reports a violation.  Results are appended to
WORKDIR/results.jsonl.  This is a development tool; no check uses it.
"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import driver
import argparse, json, os, random, re, shutil, subprocess, sys, glob

ap = argparse.ArgumentParser()
ap.add_argument("work"); ap.add_argument("seed", type=int); ap.add_argument("count", type=int)
ap.add_argument("--files", default="."); ap.add_argument("--checks", default=""); ap.add_argument("--factor", type=float, default=0.3)
ap.add_argument("--jobs", type=int, default=8); ap.add_argument("--list", action="store_true"); ap.add_argument("--all", action="store_true")
ap.add_argument("--replay", default="", help="results.jsonl: run survivors again")
a = ap.parse_args()
W = os.path.abspath(a.work); R = W + "/repo"; B = W + "/b"
os.makedirs(B, exist_ok=True)
S = W + "/base"
if not os.path.exists(S):
    shutil.copytree("/repo", S, ignore=shutil.ignore_patterns("_build", ".git"))
SRC = ["libclingo-dl/src/clingo-dl.cc", "libclingo-dl/src/graph.cc", "libclingo-dl/src/parsing.cc", "libclingo-dl/src/propagator.cc",
       "libclingo-dl/clingo-dl/config.hh", "libclingo-dl/src/theory.cc", "libclingo-dl/clingo-dl/graph.hh",
       "libclingo-dl/clingo-dl/propagator.hh", "app/src/main.cc", "app/lib/src/app.cc", "libclingo-dl/clingo-dl/impl/util.hh"]
SRC = [s for s in SRC if re.search(a.files, s)]
FULL = dict(C04=3000, C05=3000, C06=3000, C01=4000, C02=4000, C10=20000, C11=6000, C12=8000, C09=3000, C07=2500, C03=1500, C16=2500,
            C15=4000, C17=3000, C08=900, C22=8000, C21=4000, C18=3000, C23=1600, C19=250, C14=2000, C20=4500)
CHECKS = a.checks.split(",") if a.checks else list(FULL)


def sh(cmd, t=600, **k):
    try:
        r = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, text=True, errors="replace", **k)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


OPS = [(r"<=", "<"), (r">=", ">"), (r"(?<![<\-=>])<(?![<=a-zA-Z])", "<="), (r"(?<![>\-])>(?![>=(:,;&*])", ">="), (r"==", "!="), (r"!=", "=="),
       (r"&&", "||"), (r"\|\|", "&&"), (r"(?<=[\w)\]] )\+(?= )", "-"), (r"(?<=[\w)\]] )-(?= )", "+"), (r"\btrue\b", "false"),
       (r"\bfalse\b", "true"), (r"\+\+", "--"), (r"--", "++"), (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"), (r"(?<![\w.])0(?![\w.])", "1"),
       (r"(?<![\w.])1(?![\w.])", "0"), (r"(?<![\w.])1(?![\w.])", "2"), (r"\bif \((.*)\) \{$", r"if (!(\1)) {"), (r"\bif \((.*)\) \{$", r"if (false) {"),
       (r"\bif \((.*)\) \{$", r"if (true) {"), (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"\blower\b", "upper"), (r"\bupper\b", "lower"), (r"\bfrom\b", "to"), (r"\bto\b", "from"),
       (r"^(\s+)(?!return|break|continue|using|case|default|throw|auto|const|int|assert|static|size_t|bool|T |std::\w+<|\w+ \w+(\{|;| =))([^/\s{}][^{}]*);$", r"\1;"),
       (r"return (.*);$", r"return {};"), (r" = std::move\((\w+)\)", r" = {}"), (r"-(?=lit\b|literal\b|weight\b|rhs\b)", ""), (r"(?<=[( ,{])(?=lit\b|literal\b)", "-"),
       (r"emplace_back\(", "emplace_back(-1 * "), (r"\+= ", "-= "), (r"-= ", "+= ")]


def mutants():
    for f in SRC:
        lines = open(S + "/" + f).read().split("\n")
        for i, l in enumerate(lines):
            s = l.strip()
            if s.startswith(("//", "#", "*", "/*", "assert", "static_assert", "template", "using ")) or "throw " in s or "NOLINT" in s and "++" not in s:
                continue
            code = l.split("//")[0].rstrip()
            for op, rep in OPS:
                for m in re.finditer(op, code):
                    n = code[:m.start()] + m.expand(rep) + code[m.end():]
                    if n != code and (code.count('"', 0, m.start()) % 2 == 0):
                        yield f, i, l, n


rng = random.Random(a.seed)
allm = sorted(set(mutants()))
if a.replay:
    allm = [(d["file"], d["line"] - 1, d["old"], d["new"]) for d in map(json.loads, open(a.replay)) if d["result"] == "survived"]
    a.count = len(allm)
else:
    rng.shuffle(allm)
if a.list:
    print(len(allm)); sys.exit()
if not os.path.exists(R):
    shutil.copytree(S, R, ignore=shutil.ignore_patterns("_build"))
    rc, o = sh(f"cd {R} && CC=gcc CXX=g++ cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_FLAGS_RELWITHDEBINFO='-O1' "
               "-DCLINGODL_BUILD_TESTS=ON -DCLINGODL_USE_LOCAL_CATCH=OFF -DCMAKE_FIND_PACKAGE_TARGETS_GLOBAL=ON")
    assert rc == 0, o
FL = f"-DMON_ALLOC -std=c++17 -O1 -g1 -fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS -I{B} -I/verif/harness -I{R}/libclingo-dl -I{R}/libclingo-dl/src -I{R}/app/lib"
rc, o = sh(f"cd {B} && python3 /verif/harness/gen_wrap.py /usr/include/clingo.h wrap_gen.inc flags"); assert rc == 0, o
hs = " ".join(glob.glob("/verif/harness/*.cc"))
rc, o = sh(f"cd {B} && ls {hs} | xargs -P{a.jobs} -I{{}} sh -c 'o=$(basename {{}}).o; [ $o -nt {{}} -a $o -nt /verif/harness/dlmon.hh ] || clang++ {FL} -c {{}} -o $o'"); assert rc == 0, o


def build_worker(app):
    L = [f"{R}/{x}" for x in ("libclingo-dl/src/clingo-dl.cc", "libclingo-dl/src/graph.cc", "libclingo-dl/src/parsing.cc",
                              "libclingo-dl/src/propagator.cc", "libclingo-dl/src/theory.cc", "app/lib/src/app.cc", "app/src/main.cc")]
    rc, o = sh(f"cd {B} && mkdir -p l && printf '%s\\n' {' '.join(L)} | xargs -P{a.jobs} -I{{}} sh -c 'clang++ {FL} -c {{}} -o l/$(basename {{}}).o'"
               f" && clang++ -fsanitize=address,undefined *.o $(ls l/*.o | grep -v main.cc) $(cat flags) -o w -lclingo && clang++ -fsanitize=address,undefined l/*.o -o app -lclingo")
    return rc, o


def run_check(c):
    n = int(FULL[c] * a.factor); ps = []
    env = dict(os.environ, DLMON_APP=B + "/app", LSAN_OPTIONS="exitcode=0") if c == "C20" else dict(os.environ)
    for i in range(a.jobs):
        for p in ("o", "s"):
            if os.path.exists(f"{B}/{p}.{i}"): os.remove(f"{B}/{p}.{i}")
        ps.append(subprocess.Popen([B + "/w", c, "--from", str(i), "--stride", str(a.jobs), "--count", str(max(1, n // a.jobs)), "--out", f"{B}/o.{i}",
                                    "--status", f"{B}/s.{i}", "--seed", "1"], stdout=subprocess.DEVNULL, stderr=open(f"{B}/e.{i}", "w"), env=env))
    res = None
    for i, p in enumerate(ps):
        try:
            rc = p.wait(300)
        except subprocess.TimeoutExpired:
            p.kill(); rc = 124
        try:
            for l in open(f"{B}/o.{i}"):
                d = json.loads(l)
                if "violation" in d: res = "violation: " + d["violation"][:200]
        except Exception as e:
            pass
        if rc not in (0, 74) and not res:
            e = open(f"{B}/e.{i}", errors="replace").read()
            m = re.search(r"(ERROR: .*|runtime error.*|Assertion.*|terminate.*)", e)
            if (m and not driver.library_crash(e)) or rc == 124: res = f"rc {rc}: " + (m.group(1)[:200] if m else "")
    return res


done = 0
seen = set()
if os.path.exists(W + "/results.jsonl") and not a.replay:
    for d in map(json.loads, open(W + "/results.jsonl")):
        seen.add((d["file"], d["line"] - 1, d["new"]))
for f, i, old, new in allm:
    if (f, i, new) in seen: continue
    if done >= a.count: break
    shutil.copy(S + "/" + f, R + "/" + f)
    lines = open(S + "/" + f).read().split("\n"); assert lines[i] == old, (f, i); lines[i] = new
    open(R + "/" + f, "w").write("\n".join(lines))
    rec = dict(file=f, line=i + 1, old=old, new=new)
    rc, o = sh(f"ninja -C {R}/_build -j{a.jobs} clingo-dl test_clingo-dl")
    if rc == 0:
        done += 1
        rc, o = sh(f"cd {R} && timeout 100 _build/bin/test_clingo-dl >/dev/null && PATH={R}/_build/bin:$PATH timeout 60 python3 scratch/runtests.py", 200)
        if rc: rec["result"] = "tests"
        else:
            rc, o = build_worker(True)
            if rc: rec["result"] = "worker build failed"; rec["what"] = o[-500:]
            else:
                rec["result"] = "survived"; by = []
                for c in CHECKS:
                    r = run_check(c)
                    if r:
                        by.append(c); rec.update(result="killed", by=by, what=r)
                        if not a.all: break
        with open(W + "/results.jsonl", "a") as fh: fh.write(json.dumps(rec) + "\n")
        print(rec["result"], rec.get("by", ""), f"{f}:{i+1}", old.strip()[:90], "=>", new.strip()[:90], rec.get("what", "")[:120], flush=True)
    shutil.copy(S + "/" + f, R + "/" + f)
