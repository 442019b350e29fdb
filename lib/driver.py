"""Builds the worker for a check from /repo's working tree, runs it, and reports."""
import collections
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DLMON_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
REPLAY = os.path.join(VERIF, "replay")
EVIDENCE = os.path.join(VERIF, "evidence")
HARNESS = os.path.join(VERIF, "harness")
JOBS = max(1, min(8, os.cpu_count() or 1))

COMMON = ["core.cc", "run.cc", "main.cc", "session.cc", "mon.cc", "wrap.cc", "plain.cc"]
SAN = {
    "asan": ["-O1", "-g1", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all",
             "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread", "-fno-omit-frame-pointer"],
    "rel": ["-O2", "-g1"],
    "ndebug": ["-O2", "-g1", "-DNDEBUG"],
    "vg": ["-O1", "-g1"],  # run by valgrind's memcheck
}
LINK = {
    "asan": ["-fsanitize=address,undefined"],
    "tsan": ["-fsanitize=thread"],
    "rel": [],
    "ndebug": [],
    "vg": [],
}


class Broken(Exception):
    """The check cannot give an answer."""


def repo_sources():
    res = []
    for sub in ("libclingo-dl/src", "app/lib/src"):
        for ext in ("cc", "cpp", "cxx"):
            res += glob.glob(os.path.join(REPO, sub, "**", "*." + ext), recursive=True)
    if not res:
        raise Broken("no sources found in " + REPO)
    return sorted(res)


def repo_headers():
    res = []
    for sub in ("libclingo-dl", "app"):
        for ext in ("h", "hh", "hpp", "ipp"):
            res += glob.glob(os.path.join(REPO, sub, "**", "*." + ext), recursive=True)
    return sorted(res)


def digest(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:20]


def includes():
    res = ["-I" + HARNESS, "-I" + REPO + "/libclingo-dl", "-I" + REPO + "/libclingo-dl/src", "-I" + REPO + "/app/lib"]
    return res


def parallel(cmds):
    """Run compile commands in parallel; return combined stderr on failure."""
    procs = []
    todo = list(cmds)
    errors = []
    while todo or procs:
        while todo and len(procs) < JOBS:
            procs.append(subprocess.Popen(todo.pop(0), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
        p = procs.pop(0)
        out, _ = p.communicate()
        if p.returncode != 0:
            errors.append(out)
    return "\n".join(errors)


def build_app(variant):
    """Build the clingo-dl program and return its path."""
    srcs = sorted(glob.glob(os.path.join(REPO, "app/src", "*.cc")))
    if not srcs:
        raise Broken("no sources of the program found")
    return build([], variant, name="clingo-dl", wrap=False, sources=srcs)


def build_python():
    """Build the Python module, the library, and the program from the same sources; return the folder."""
    module = os.path.join(REPO, "libpyclingo-dl")
    csrc = os.path.join(module, "_clingodl.c")
    pys = sorted(glob.glob(os.path.join(module, "clingodl", "*.py")))
    if not os.path.exists(csrc) or not pys:
        raise Broken("no sources of the Python module found")
    apps = sorted(glob.glob(os.path.join(REPO, "app/src", "*.cc")))
    lib = [f for f in repo_sources() if "/app/" not in f]
    srcs = repo_sources() + apps
    base = os.path.join(BUILD, digest(srcs + repo_headers() + [csrc] + pys, "python"))
    if os.path.exists(base):
        os.utime(base)
        return base
    r = subprocess.run(["python3-vt", "-c", "import cffi, sysconfig; print(sysconfig.get_paths()['include'])"],
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise Broken("Python with cffi is not available: " + r.stderr[-1000:])
    inc = r.stdout.strip()
    tmp = base + ".tmp.%d" % os.getpid()
    os.makedirs(os.path.join(tmp, "clingodl"), exist_ok=True)
    try:
        objs = {}
        cmds = []
        for i, f in enumerate(srcs):
            objs[f] = os.path.join(tmp, "%d.o" % i)
            cmds.append(["clang++", "-std=c++17", "-O1", "-g1", "-fPIC", "-fvisibility=hidden", "-DCLINGODL_BUILD_LIBRARY"] +
                        includes() + ["-c", f, "-o", objs[f]])
        cmds.sort(key=lambda c: -os.path.getsize(c[-3]))
        err = parallel(cmds)
        if err:
            raise Broken("compilation failed:\n" + err[-4000:])
        for f in pys:
            shutil.copy(f, os.path.join(tmp, "clingodl"))
        rpath = "-Wl,-rpath," + base
        for cmd in (["clang++", "-shared"] + [objs[f] for f in lib] + ["-o", tmp + "/libclingo-dl.so", "-lclingo"],
                    ["clang++"] + [objs[f] for f in srcs] + ["-o", tmp + "/clingo-dl", "-lclingo"],
                    ["gcc", "-O1", "-fPIC", "-shared", "-D_CFFI_NO_LIMITED_API", "-I" + inc] + includes() +
                    [csrc, "-o", tmp + "/clingodl/_clingodl.so", "-L" + tmp, "-lclingo-dl", "-lclingo", rpath]):
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode != 0:
                raise Broken("building the Python module failed:\n" + r.stderr[-4000:])
        for o in objs.values():
            os.unlink(o)
        os.rename(tmp, base)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return base


def build(files, variant, defines=(), repo=True, name="w", wrap=True, libs=("-lclingo",), sources=()):
    """Build an executable and return its path."""
    srcs = [os.path.join(HARNESS, f) for f in files] + list(sources)
    rsrcs = repo_sources() if repo else []
    flags = ["-std=c++17"] + SAN[variant] + list(defines) + includes()
    key = digest(srcs + rsrcs + repo_headers() + sorted(glob.glob(HARNESS + "/*.hh")) +
                 [HARNESS + "/gen_wrap.py"], " ".join([name] + flags))
    base = os.path.join(BUILD, key)
    exe = os.path.join(base, name)
    if os.path.exists(exe):
        os.utime(base)
        return exe
    os.makedirs(BUILD, exist_ok=True)
    old = sorted((d for d in glob.glob(BUILD + "/*") if os.path.isdir(d)), key=os.path.getmtime)
    for d in old[:-14]:
        shutil.rmtree(d, ignore_errors=True)
    tmp = base + ".tmp.%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    try:
        link = []
        if wrap:
            subprocess.run([sys.executable, HARNESS + "/gen_wrap.py", "/usr/include/clingo.h", tmp + "/wrap_gen.inc",
                            tmp + "/flags"], check=True)
            link = open(tmp + "/flags").read().split()
        cmds = []
        objs = []
        for i, f in enumerate(srcs + rsrcs):
            o = os.path.join(tmp, "%d.o" % i)
            objs.append(o)
            cmds.append(["clang++"] + flags + ["-I" + tmp, "-c", f, "-o", o])
        # big files first
        cmds.sort(key=lambda c: -os.path.getsize(c[-3]))
        err = parallel(cmds)
        if err:
            raise Broken("compilation failed:\n" + err[-4000:])
        r = subprocess.run(["clang++"] + LINK[variant] + objs + link + ["-o", tmp + "/" + name] + list(libs),
                           capture_output=True, text=True)
        if r.returncode != 0:
            raise Broken("linking failed:\n" + r.stderr[-4000:])
        for o in objs:
            os.unlink(o)
        if os.path.isdir(base):
            shutil.rmtree(base, ignore_errors=True)
        os.rename(tmp, base)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


REPORT = re.compile(r"(ERROR: AddressSanitizer|runtime error:|WARNING: ThreadSanitizer|Assertion `|Assertion '|"
                    r"ERROR: LeakSanitizer|terminate called|DEADLYSIGNAL|HANG:|"
                    r"^==\d+== (Invalid |Conditional jump|Use of uninit|Syscall param|Mismatched |Source and dest|Process terminating))", re.M)


class Result:
    def __init__(self):
        self.cases = 0
        self.violations = []  # dicts: message, case, log, stderr, variant
        self.counters = collections.Counter()
        self.hashes = set()
        self.tags = set()
        self.samples = []
        self.nontrivial = 0
        self.budget_hit = False
        self.library_crashes = 0
        self.notes = []

    def absorb(self, s):
        self.cases += s["cases"]
        self.nontrivial += s["nontrivial"]
        self.budget_hit |= s["budget_hit"]
        self.counters.update(s["counters"])
        self.hashes.update(s["hashes"])
        self.tags.update(s["tags"])
        self.samples += s["samples"]


def env(variant):
    e = dict(os.environ)
    e.pop("DLMON_OPTS", None)
    sym = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18") or ""
    opts = "symbolize=1" + (":external_symbolizer_path=" + sym if sym else "")
    e["ASAN_OPTIONS"] = opts + ":abort_on_error=0:exitcode=77:allocator_may_return_null=0"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:" + opts
    e["TSAN_OPTIONS"] = opts + ":halt_on_error=0:exitcode=77:ignore_noninstrumented_modules=1:second_deadlock_stack=1:history_size=4"
    e["LSAN_OPTIONS"] = "exitcode=0"
    return e


def worker_cmd(exe, check, seed, extra, variant):
    cmd = [exe, check, "--seed", str(seed)] + extra
    if variant == "vg":
        # uninitialized values are not found by the compiler's sanitizers because libclingo is not instrumented
        return ["valgrind", "-q", "--exit-on-first-error=yes", "--error-exitcode=77", "--leak-check=no", "--fair-sched=yes",
                "--num-callers=30"] + cmd + ["--cpu", "900", "--wall", "1200"]
    return cmd


def run_one(exe, check, seed, variant, case, extra, work, tmo=400):
    out = os.path.join(work, "one.out")
    err = os.path.join(work, "one.err")
    with open(err, "w") as fe:
        try:
            p = subprocess.run(worker_cmd(exe, check, seed, extra, variant) +
                               ["--only", str(case), "--out", out, "--status", os.path.join(work, "one.st")],
                               stdout=subprocess.DEVNULL, stderr=fe, env=env(variant), timeout=tmo, cwd=work)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = 79
    vs, summary = parse_out(out)
    return rc, vs, summary, tail(err)


def tail(path, n=24000):
    try:
        with open(path, errors="replace") as f:
            d = f.read()
        m = REPORT.search(d)
        if m:
            return d[max(0, m.start() - 300):m.start() + n]
        return d[-n:]
    except OSError:
        return ""


def parse_out(path):
    vs = []
    summary = None
    try:
        with open(path, errors="replace") as f:
            for line in f:
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if "violation" in d:
                    vs.append(d)
                elif "summary" in d:
                    summary = d["summary"]
    except OSError:
        pass
    return vs, summary


def case_log(exe, check, seed, variant, case, extra, work):
    """The description of a crashing case (printed by the worker before it runs into the crash)."""
    return ""


def run_variant(res, exe, check, seed, variant, count, extra, budget, work, chunk=None):
    """Distribute count cases over all cores; with a chunk, processes are replaced by fresh ones after so many cases."""
    workers = []
    n = min(JOBS, count)
    deadline = time.time() + budget + 300
    for i in range(n):
        workers.append({"from": i, "count": (count - i + n - 1) // n, "id": i, "restarts": 0})

    def start(w):
        w["out"] = os.path.join(work, "%s.%d.out" % (variant, w["id"]))
        w["err"] = os.path.join(work, "%s.%d.err" % (variant, w["id"]))
        w["st"] = os.path.join(work, "%s.%d.st" % (variant, w["id"]))
        for f in (w["out"], w["st"]):
            if os.path.exists(f):
                os.unlink(f)
        fe = open(w["err"], "w")
        w["p"] = subprocess.Popen(
            worker_cmd(exe, check, seed, extra, variant) +
            ["--from", str(w["from"]), "--stride", str(n), "--count", str(min(w["count"], chunk or w["count"])), "--out", w["out"],
             "--status", w["st"], "--budget", str(max(1, int(deadline - 300 - time.time())))],
            stdout=subprocess.DEVNULL, stderr=fe, env=env(variant), cwd=work)
        fe.close()

    for w in workers:
        start(w)
    while workers:
        w = workers.pop(0)
        try:
            w["p"].wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            w["p"].kill()
            w["p"].wait()
            res.notes.append("worker %d did not finish in time" % w["id"])
        rc = w["p"].returncode
        vs, summary = parse_out(w["out"])
        for v in vs:
            res.violations.append({"message": v["violation"], "case": v["case"], "log": v["log"], "variant": variant,
                                   "stderr": ""})
        text = tail(w["err"])
        if summary is not None:
            res.absorb(summary)
            if rc == 74:
                # the process had to be given up because of libclingo
                case = read_status(w["st"])
                res.counters["processes given up because libclingo terminates"] += 1
                w["count"] -= (case - w["from"]) // n + 1
                w["from"] = case + n
                if w["count"] > 0 and time.time() < deadline:
                    start(w)
                    workers.append(w)
                continue
            if rc == 0 and chunk and w["count"] > chunk and time.time() < deadline - 300 and not summary.get("budget_hit"):
                w["count"] -= chunk
                w["from"] += n * chunk
                start(w)
                workers.append(w)
                continue
            if rc in (0, 1):
                continue
            if REPORT.search(text):
                # e.g. data races are reported at the end
                res.violations.append({"message": first_report(text), "case": read_status(w["st"]), "log": "",
                                       "variant": variant, "stderr": text})
                continue
            if rc != 0:
                res.notes.append("worker exited with %d after its summary" % rc)
                continue
        case = read_status(w["st"])
        if case is None:
            raise Broken("worker failed to start (exit code %s):\n%s" % (rc, text))
        # the worker died in a case
        hang = rc == 79
        killed = rc == -signal.SIGKILL
        confirmed = None
        if not hang and not killed and (REPORT.search(text) or rc == 77):
            confirmed = (rc, text)
        tries = 2
        if hang and any(v["message"].startswith("hang") for v in res.violations):
            # one confirmed hang is enough
            res.notes.append("case %d ended with %d and was not run again" % (case, rc))
            continue
        while confirmed is None and tries > 0:
            tries -= 1
            rc2, vs2, sum2, text2 = run_one(exe, check, seed, variant, case, extra, work)
            if rc2 not in (0, 1) and rc2 != -signal.SIGKILL:
                confirmed = (rc2, text2)
            elif rc2 == -signal.SIGKILL and killed:
                confirmed = (rc2, "killed (memory exhausted)")
            elif vs2:
                confirmed = (rc2, vs2[0]["violation"])
            elif hang or killed:
                pass
        if confirmed is None and not hang and not killed:
            confirmed = (rc, text)  # a crash is a crash
        if confirmed is not None and library_crash(confirmed[1]):
            # libclingo 5.6.2 itself crashes in rare cases of parallel multi-shot solving
            res.library_crashes += 1
            if res.library_crashes <= max(2, count // 1000):
                res.notes.append("libclingo crashed in case %d without the theory being involved" % case)
                confirmed = None
        if confirmed is not None:
            msg = "hang" if confirmed[0] == 79 else first_report(confirmed[1]) or "crash"
            res.violations.append({"message": "%s (exit code %d)" % (msg, confirmed[0]), "case": case,
                                   "log": "", "variant": variant, "stderr": confirmed[1]})
            continue
        res.notes.append("case %d ended with %d but not when run again" % (case, rc))
        w["restarts"] += 1
        done = (case - w["from"]) // n + 1
        res.cases += done
        w["count"] -= done
        w["from"] = case + n
        if w["count"] > 0 and w["restarts"] < 4 and time.time() < deadline:
            start(w)
            workers.append(w)


LIBFRAME = re.compile(r"\((/\S*)?/lib(clingo|stdc\+\+|c|gcc_s)\.so")


def library_crash(text):
    """Check for a crash in libclingo with no code of the theory on the stack."""
    m = re.search(r"^==\d+== (Invalid |Conditional jump|Use of uninit|Syscall param)", text, re.M)
    if m:
        return "ClingoDL" not in text and "clingodl_" not in text
    m = re.search(r"AddressSanitizer: (SEGV|FPE|ABRT|BUS)", text)
    if not m:
        return False
    top = None
    for line in text[m.start():].split("\n")[1:]:
        if re.match(r"\s+#\d+ ", line):
            if top is None:
                top = "libclingo.so" in line
            if not LIBFRAME.search(line) and ("ClingoDL" in line or "clingodl_" in line or REPO + "/" in line):
                return False
        elif top is not None:
            break
    return bool(top)


def read_status(path):
    try:
        with open(path) as f:
            return int(f.read().split("\n")[0])
    except (OSError, ValueError):
        return None


def first_report(text):
    m = REPORT.search(text)
    if not m:
        return text.strip().split("\n")[-1][:300] if text.strip() else ""
    s = text.rfind("\n", 0, m.start()) + 1
    e = text.find("\n", m.start())
    return text[s:e if e > 0 else len(text)][:400]


# --- known findings -----------------------------------------------------------------------------

def known_findings(prop):
    res = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            m = re.match(r"finding: property=(\S+) match=/(.*?)/ (.*)$", line)
            if m and m.group(1) == prop:
                res.append((re.compile(m.group(2)), m.group(3)))
    return res


def finish(prop, tier, seed, level, res, spec, t0):
    """Write evidence, report, and return the exit code."""
    findings = known_findings(prop)
    fresh = []
    for v in res.violations:
        text = v["message"] + "\n" + v["log"] + "\n" + v["stderr"]
        if not any(r.search(text) for r, _ in findings):
            fresh.append(v)
    os.makedirs(EVIDENCE, exist_ok=True)
    samples = res.samples[:5] or ["(none)"]
    coverage = {
        "evaluations": res.cases,
        "distinct_nontrivial": len(res.hashes),
        "rule": spec["rule"],
        "samples": samples,
        "observed": dict(sorted(res.counters.items())),
    }
    if res.tags:
        coverage["reached"] = sorted(res.tags)[:400]
        coverage["reached_count"] = len(res.tags)
    if res.budget_hit:
        coverage["stopped_by_time_budget"] = True
    if res.notes:
        coverage["notes"] = res.notes[:20]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for _, what in findings:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if fresh:
        os.makedirs(REPLAY, exist_ok=True)
        for i, v in enumerate(fresh[:5]):
            path = os.path.join(REPLAY, "%s-%s-%d.json" % (prop, v["variant"], i))
            v = dict(v, property=prop, seed=seed, tier=tier,
                     replay_cmd="bin/check %s %s --variant %s --only %s" % (prop, tier, v["variant"], v["case"]))
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
                f.write("\n")
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  " + v["message"].replace("\n", " ")[:500])
        return 1
    return 0


def excessive(res, spec):
    """Things that libclingo does in rare cases on its own but that must not happen often."""
    for k, n in spec.get("maximum", {}).items():
        limit = 2 + int(res.cases * n)
        if res.counters.get(k, 0) > limit:
            res.violations.append({"message": "%s: %d times in %d cases" % (k, res.counters[k], res.cases), "case": 0,
                                   "log": "", "variant": "all", "stderr": ""})


def insufficient(res, spec, tier):
    """Too little observed: the run gives no answer (this never counts as success)."""
    low = []
    for k, n in spec.get("minimum", {}).items():
        got = len(res.hashes) if k == "nontrivial" else res.counters.get(k, 0)
        if got < n:
            low.append("%s: %d < %d" % (k, got, n))
    return low
