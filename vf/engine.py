"""Solver-based checking of the real casync-nano code.

For every job: compile the listed sources of /repo's current working tree with
goto-cc (environment calls redirected by shim/vf_shim.h), link them with a
harness, let CBMC turn the whole thing into one SAT problem and decide every
assertion (the harness' property assertions plus the built-in memory-safety and
arithmetic ones) for all inputs within the bounds.  Loop bounds are checked by
unwinding assertions and raised automatically when they are too small.  A
counterexample is turned into a list of concrete values and replayed against a
native (gcc, ASan+UBSan) build of the same sources; only what reproduces is
reported.  Every harness also carries reachability witnesses ("reach: ..."
assertions that must come back violated); their traces are replayed natively
too, which checks the encoding against the compiled code on every run.
"""
import concurrent.futures as cf
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SHIM = os.path.join(VERIF, "shim")
HARN = os.path.join(VERIF, "harness")
INC = ["-I/usr/include/x86_64-linux-gnu"]
WARN = ["-w"]

# Loops of the harness runtime and of CBMC's C library models whose guards are
# concrete in practice: a generous bound costs nothing there.
SHIM_HINTS = {
    "harness": 400, "vf_streq": 200, "vf_find": 20, "strlen": 300, "strcmp": 300, "strncmp": 300,
    "strcpy": 300, "strncpy": 300, "strncat": 300, "strchr": 300, "strrchr": 300, "strcat": 300,
    "vf_vfmt": 300, "vf_fmt_hex": 20, "vf_fmt_dec": 24,
    "vf_hash": 34, "vf_hash_eq": 34,
    "memcmp": 70, "memcpy": 70, "memset": 70,
    "strdup": 300,
}


class Job:
    def __init__(self, name, harness, srcs, defs=(), unwind=6, hints=None, flags=(),
                 timeout=450, tier="quick", rename_main=None, max_unwind=400,
                 bounds="", stubs="", optional_reach=(), slow=False, malloc_fail=False,
                 native_libs=(), srcdefs=None, no_checks=(), witness=True, solver=None,
                 native_timeout=20, validate_reach=True, weight=1, replace=None,
                 rewrite=None):
        self.__dict__.update(locals())
        self.defs = list(defs)
        self.hints = dict(hints or {})
        self.flags = list(flags)
        self.srcdefs = dict(srcdefs or {})
        self.srcs = list(srcs)
        # {source: [functions whose body the harness supplies]}
        self.replace = dict(replace or {})
        # {source: [(regular expression, replacement)]}: scales constants down
        self.rewrite = dict(rewrite or {})


class JobError(Exception):
    pass


class Undecided(JobError):
    """the solver ran out of time or memory"""


DEADLINE = None         # no solver runs past this time


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    resource.setrlimit(resource.RLIMIT_STACK, (1 << 30, resource.RLIM_INFINITY)) \
        if resource.getrlimit(resource.RLIMIT_STACK)[1] in (resource.RLIM_INFINITY,) else None


CANCEL = threading.Event()      # set when another job has found a violation


def run(cmd, timeout=None, env=None, out=None, limit=True, cwd=None):
    t = time.time()
    so_f = open(out, "wb") if out else tempfile.TemporaryFile()
    se_f = tempfile.TemporaryFile()
    p = subprocess.Popen(cmd, stdout=so_f, stderr=se_f, env=env, cwd=cwd, start_new_session=True,
                         stdin=subprocess.DEVNULL, preexec_fn=_limits if limit else None)
    rc = None
    try:
        while True:
            try:
                rc = p.wait(0.2)
                break
            except subprocess.TimeoutExpired:
                if CANCEL.is_set() or (timeout and time.time() - t > timeout):
                    break
        if rc is None:
            try:
                os.killpg(p.pid, 9)
            except ProcessLookupError:
                pass
            p.wait()
        so = ""
        if not out:
            so_f.seek(0)
            so = so_f.read().decode("utf-8", "replace")
        se_f.seek(0)
        se = se_f.read().decode("utf-8", "replace")
    finally:
        so_f.close()
        se_f.close()
    return rc, so, se if rc is not None else "timeout", time.time() - t


def _src_flags(job, src):
    fl = ["-D" + d for d in job.defs]
    base = os.path.basename(src)
    for d in job.srcdefs.get(base, []):
        fl.append("-D" + d)
    if job.rename_main == base:
        fl.append("-Dmain=vf_repo_main")
    return fl


def repo_src(job, d, src):
    """path of a source of /repo, scaled down in a copy if the job says so"""
    rules = job.rewrite.get(os.path.basename(src))
    if not rules:
        return os.path.join(REPO, src)
    text = open(os.path.join(REPO, src), errors="replace").read()
    for pat, new in rules:
        text = re.sub(pat, new, text)
    out = os.path.join(d, os.path.basename(src))
    with open(out, "w") as fh:
        fh.write(text)
    return out


def build_goto(job, d):
    objs = []
    for src in job.srcs:
        o = os.path.join(d, os.path.basename(src) + ".gb")
        cmd = ["goto-cc", "-DVF_CBMC", "-c", "-o", o, "-I" + SHIM, "-I" + REPO, *INC, *WARN,
               "-include", "vf_shim.h", *_src_flags(job, src), repo_src(job, d, src)]
        rc, so, se, _ = run(cmd, 120)
        if rc != 0:
            raise JobError("goto-cc %s failed:\n%s%s" % (src, so, se))
        fns = job.replace.get(os.path.basename(src), [])
        if fns:
            rc, so, se, _ = run(["goto-instrument", *[x for f in fns for x in ("--remove-function-body", f)], o, o + "2"], 120)
            if rc != 0:
                raise JobError("goto-instrument %s failed:\n%s%s" % (src, so, se))
            o += "2"
        objs.append(o)
    for src in (os.path.join(HARN, job.harness), os.path.join(SHIM, "vf_core.c")):
        o = os.path.join(d, os.path.basename(src) + ".h.gb")
        cmd = ["goto-cc", "-DVF_CBMC", "-c", "-o", o, "-I" + SHIM, "-I" + HARN, "-I" + REPO, *INC, *WARN,
               "-include", "vf_shim.h", *["-D" + x for x in job.defs], src]
        rc, so, se, _ = run(cmd, 120)
        if rc != 0:
            raise JobError("goto-cc %s failed:\n%s%s" % (src, so, se))
        objs.append(o)
    gb = os.path.join(d, "all.gb")
    rc, so, se, _ = run(["goto-cc", "-o", gb, *objs, "--function", "harness"], 120)
    if rc != 0:
        raise JobError("goto link failed:\n%s%s" % (so, se))
    return gb


NOAUTO = ("main.c", "csn-tool.c", "patchdd.c", "csn-bench.c")


def gcc_obj(job, d, src, o, repo):
    # uninitialised variables are arbitrary for the solver: make them visible natively
    cmd = ["gcc", "-g", "-O0", "-ftrivial-auto-var-init=pattern", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
           "-fno-omit-frame-pointer", "-c", "-o", o, "-I" + SHIM, "-I" + HARN, "-I" + REPO, *INC, *WARN]
    if src.endswith("vf_default.c"):
        cmd += ["-fno-builtin", src]
    elif repo:
        cmd += ["-include", "vf_shim.h", *_src_flags(job, src), repo_src(job, d, src)]
    else:
        cmd += ["-include", "vf_shim.h", *["-D" + x for x in job.defs], src]
    rc, so, se, _ = run(cmd, 120, limit=False)
    if rc != 0:
        raise JobError("gcc %s failed:\n%s%s" % (src, so, se))
    fns = job.replace.get(os.path.basename(src), []) if repo else []
    if fns:
        run(["objcopy", *["--weaken-symbol=" + f for f in fns], o], 60)


def build_native(job, d):
    """-> executable; adds to job.srcs what the listed sources turn out to need"""
    exe = os.path.join(d, "replay")
    objs = []
    for src in job.srcs:
        objs.append(os.path.join(d, os.path.basename(src) + ".o"))
        gcc_obj(job, d, src, objs[-1], True)
    for src in (os.path.join(HARN, job.harness), os.path.join(SHIM, "vf_core.c"), os.path.join(SHIM, "vf_default.c")):
        objs.append(os.path.join(d, os.path.basename(src) + ".h.o"))
        gcc_obj(job, d, src, objs[-1], False)
    for _ in range(5):
        rc, so, se, _t = run(["gcc", "-fsanitize=address,undefined", "-o", exe, *objs,
                              *["-l" + l for l in job.native_libs]], 120, limit=False)
        if rc == 0:
            return exe
        missing = set(re.findall(r"undefined reference to `(\w+)'", se))
        more = []
        for src in sorted(os.listdir(REPO)):
            if not src.endswith(".c") or src in NOAUTO or src in job.srcs:
                continue
            text = open(os.path.join(REPO, src), errors="replace").read()
            if any(re.search(r"^(?!static)\w[\w\s\*]*\b%s\([^;{]*\)\s*\{" % m, text, re.M) for m in missing):
                more.append(src)
        if not more:
            break
        for src in more:
            job.srcs = job.srcs + [src]
            objs.append(os.path.join(d, os.path.basename(src) + ".o"))
            gcc_obj(job, d, src, objs[-1], True)
    raise JobError("native link failed:\n%s%s" % (so, se))


REPLAY_BAD = ("VF-VIOLATION", "AddressSanitizer", "runtime error:", "LeakSanitizer")


def replay(exe, values, d, tag, pad=False, timeout=20):
    """-> (verdict, text); verdict in violated/hang/ok/assume/exhausted/other"""
    f = os.path.join(d, "replay-%s.txt" % tag)
    with open(f, "w") as fh:
        fh.write("\n".join(str(v) for v in values) + "\n")
    env = dict(os.environ, VF_REPLAY=f, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1",
               UBSAN_OPTIONS="print_stacktrace=1")
    if pad:
        env["VF_PAD"] = "1"
    rc, so, se, _ = run([exe], timeout, env=env, limit=False)
    if rc is None:
        return "hang", "native run did not end within %ds" % timeout
    if any(b in se for b in REPLAY_BAD):
        return "violated", se
    if rc in (-11, -6, -8, -4, 139, 134, 136, 132):
        return "violated", se + "\nsignal %d" % rc
    if rc == 77:
        return "assume", se
    if rc == 78:
        return "exhausted", se
    if rc == 0:
        return "ok", se
    return "other", se + "\nrc=%d" % rc


def parse_output(path):
    """-> (properties, statistics, callees without body, error text, complete)

    The text form is used: the JSON form repeats the contents of every static
    array in every trace."""
    props, by_name, stats, nobody, error, complete = [], {}, {"solver_s": 0.0}, set(), "", False
    where, section, cur = {}, "", None
    with open(path, errors="replace") as fh:
        for line in fh:
            if section == "trace":
                if line.startswith("  vf_nd_log="):
                    m = re.match(r"  vf_nd_log=.*\(([01 ]+)\)", line)
                    if m:
                        cur["trace"].append(int(m.group(1).replace(" ", ""), 2))
                    continue
            if line.startswith("Trace for "):
                section = "trace"
                cur = by_name.setdefault(line[10:].strip().rstrip(":"), {"trace": []})
                continue
            if line.startswith("VERIFICATION "):
                complete = True
                error = "" if "ERROR" not in line else error or "verification error"
                continue
            if section == "trace":
                continue
            if line.startswith("** Results:"):
                section = "results"
                continue
            if section == "results":
                m = re.match(r"\[(\S+)\] (?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$", line.rstrip("\n"))
                if m:
                    p = {"property": m.group(1), "description": m.group(3), "status": m.group(4), "trace": [],
                         "sourceLocation": dict(where, line=m.group(2))}
                    props.append(p)
                    by_name[m.group(1)] = p
                    continue
                m = re.match(r"(\S+) function (\S+)$", line)
                if m:
                    where = {"file": m.group(1), "function": m.group(2)}
                continue
            m = re.match(r"size of program expression: (\d+) steps", line)
            if m:
                stats["steps"] = int(m.group(1))
            m = re.match(r"Generated (\d+) VCC\(s\), (\d+) remaining", line)
            if m:
                stats["vccs"], stats["vccs_remaining"] = int(m.group(1)), int(m.group(2))
            m = re.match(r"(\d+) variables, (\d+) clauses", line)
            if m:
                stats["variables"] = max(stats.get("variables", 0), int(m.group(1)))
                stats["clauses"] = max(stats.get("clauses", 0), int(m.group(2)))
            m = re.match(r"Runtime Solver: ([\d.e+-]+)s", line)
            if m:
                stats["solver_s"] += float(m.group(1))
            m = re.match(r"Runtime Symex: ([\d.e+-]+)s", line)
            if m:
                stats["symex_s"] = float(m.group(1))
            m = re.search(r"no body for (?:function|callee) (\S+)", line)
            if m:
                nobody.add(m.group(1).strip("'"))
            if "rror" in line and section == "" or "memory" in line:
                error = line.strip()[:300]
    return props, stats, nobody, error, complete


def list_loops(gb):
    rc, so, se, _ = run(["cbmc", gb, "--show-loops", "--json-ui"], 120)
    loops = {}
    try:
        for item in json.loads(so):
            for l in item.get("loops", []):
                n = l.get("name") or l.get("loopName")
                loops[n] = l.get("sourceLocation", {}).get("function", n.rsplit(".", 1)[0])
    except ValueError:
        for m in re.finditer(r"Loop (\S+):", so):
            loops[m.group(1)] = m.group(1).rsplit(".", 1)[0]
    return loops


class Result:
    pass


def solve(job, gb, d, unwind, tag, depth=None):
    out = os.path.join(d, "cbmc-%s.txt" % tag)
    uw = ",".join("%s:%d" % (k, v) for k, v in sorted(unwind.items()))
    cmd = ["cbmc", gb, "--trace", "--verbosity", "8", "--unwinding-assertions",
           "--drop-unused-functions", "--object-bits", "12", "--max-field-sensitivity-array-size", "400", "--unwind", str(job.unwind)]
    if uw:
        cmd += ["--unwindset", uw]
    if not job.malloc_fail:
        cmd += ["--no-malloc-may-fail"]
    cmd += job.flags
    if job.solver:
        cmd += job.solver
    if depth:       # a prefix of the execution only: for refuting, not for deciding
        cmd.remove("--unwinding-assertions")
        cmd += ["--depth", str(depth)]
    left = job.timeout if DEADLINE is None else min(job.timeout, DEADLINE - time.time())
    if left <= 0:
        raise Undecided("no time left for job " + job.name)
    if depth:
        left = min(left, 60)
    rc, so, se, wall = run(cmd, left, out=out)
    r = Result()
    r.cmd, r.wall, r.rc = cmd, wall, rc
    if rc is None:
        raise Undecided("solver timeout after %ds (job %s)" % (left, job.name))
    r.props, r.stats, r.nobody, r.error, complete = parse_output(out)
    if rc not in (0, 10) and (rc in (-9, -6, 137, 134) or "memory" in r.error or "bad_alloc" in se or "memory" in se):
        raise Undecided("solver out of memory (job %s)" % job.name)
    if rc not in (0, 10) or not r.props or not complete:
        raise JobError("cbmc failed (rc=%s) in job %s: %s %s" % (rc, job.name, r.error, se[-500:]))
    os.unlink(out)
    return r


def run_job(job, keep=None, log=print):
    """-> dict with verdict 'ok' | 'violation' | 'error'"""
    t0 = time.time()
    res = {"job": job.name, "bounds": job.bounds, "stubs": job.stubs, "verdict": "error",
           "sources": list(job.srcs), "notes": [], "obligations": 0, "discharged": 0,
           "witnesses": 0, "witnesses_validated": 0, "solver_s": 0.0, "queries": 0}
    d = tempfile.mkdtemp(prefix="vf-")
    try:
        exe = build_native(job, d)
        gb = build_goto(job, d)
        loops = list_loops(gb)
        unwind = {}
        for l, fn in loops.items():
            name = l.rsplit(".", 1)[0]
            for hints in (SHIM_HINTS, job.hints):
                if l in hints:
                    unwind[l] = hints[l]
                elif name in hints:
                    unwind[l] = hints[name]
        r = None
        for attempt in range(8):
            shallow = None
            try:
                r = solve(job, gb, d, unwind, "a%d" % attempt)
            except Undecided as e:
                # memory corruption makes the symbolic execution explode where its
                # effects are used; look for it in a prefix of the execution
                for depth in (500, 2000, 8000):
                    try:
                        r = solve(job, gb, d, unwind, "s%d" % depth, depth)
                    except (Undecided, JobError):
                        break
                    if [p for p in r.props if p["status"] == "FAILURE"
                            and not p.get("description", "").startswith("reach:")]:
                        shallow = e
                        break
                if shallow is None:
                    raise
            res["queries"] += 1
            res["solver_s"] += r.stats.get("solver_s", 0)
            bad = [p for p in r.props if p["status"] == "FAILURE"
                   and not p.get("description", "").startswith("reach:")]
            uw = [p for p in bad if ".unwind." in p["property"] or ".recursion" in p["property"]]
            real = [p for p in bad if p not in uw]
            if shallow is not None or real or not uw:
                break
            grew = False
            for p in uw:
                m = re.match(r"(.*)\.unwind\.(\d+)$", p["property"])
                if not m:
                    continue
                l = "%s.%s" % (m.group(1), m.group(2))
                cur = unwind.get(l, job.unwind)
                if cur < job.max_unwind:
                    unwind[l] = min(job.max_unwind, cur * 3)
                    grew = True
            res["notes"].append("raised bounds: " + ", ".join(
                "%s" % p["property"] for p in uw))
            if not grew:
                break
        res["unwind"] = {"default": job.unwind, **{k: v for k, v in unwind.items()
                         if not k.startswith(("vf_", "str", "mem"))}}
        res["stats"] = r.stats
        res["unmodelled_callees"] = sorted(r.nobody)
        res["cmd"] = " ".join(c for c in r.cmd)
        reach = [p for p in r.props if p.get("description", "").startswith("reach:")]
        res["obligations"] = len(r.props) - len(reach)
        res["discharged"] = len([p for p in r.props if p["status"] == "SUCCESS" and p not in reach])
        res["witnesses"] = len(reach)
        res["props"] = sorted({p["description"][4:] for p in r.props
                               if p.get("description", "").startswith("vf: ")})
        unknown = [p for p in r.props if p["status"] not in ("SUCCESS", "FAILURE")]
        if real:
            real.sort(key=lambda p: (not p.get("description", "").startswith("vf:"), len(p.get("trace", []))))
            last = ""
            for n, p in enumerate(real[:12]):
                vals = p["trace"]
                # static initialisation contributes one leading entry
                for cand in ([vals[1:], vals] if vals and vals[0] == 0 else [vals]):
                    v, txt = replay(exe, cand, d, "p%d" % n, timeout=job.native_timeout)
                    if v in ("violated", "hang"):
                        break
                last = "%s: %s -> native %s: %s" % (p["property"], p["description"], v, txt[-300:])
                if v in ("violated", "hang"):
                    res["verdict"] = "violation"
                    res["violation"] = {"property": p["property"], "description": p["description"],
                                        "location": p.get("sourceLocation", {}), "values": cand,
                                        "native": v, "native_output": txt[-3000:]}
                    res["failed"] = sorted({q["description"] for q in real})
                    return res
            # the encoding, not the code, is at fault here: no verdict
            res["verdict"] = "undecided"
            if shallow is not None:
                res["error"] = str(shallow)
                return res
            res["error"] = "counterexample did not reproduce natively; last: " + last
            res["failed"] = [q["property"] + ": " + q["description"] for q in real]
            return res
        if uw:
            for n, p in enumerate(uw[:4]):
                vals = p["trace"]
                for cand in ([vals[1:], vals] if vals and vals[0] == 0 else [vals]):
                    v, txt = replay(exe, cand, d, "u%d" % n, pad=True, timeout=job.native_timeout)
                    if v in ("hang", "violated"):
                        res["verdict"] = "violation"
                        res["violation"] = {"property": p["property"],
                                            "description": "does not terminate: " + p["description"],
                                            "location": p.get("sourceLocation", {}), "values": cand,
                                            "native": v, "native_output": txt[-3000:], "pad": True}
                        return res
            res["verdict"] = "undecided"
            res["error"] = "loop bound not sufficient: " + ", ".join(p["property"] for p in uw)
            return res
        if unknown:
            res["error"] = "undecided: " + ", ".join(p["property"] for p in unknown[:5])
            return res
        dead = [p for p in reach if p["status"] != "FAILURE"
                and p["description"][7:] not in job.optional_reach]
        # a label may be instantiated several times; it is enough if one copy is hit
        hit = {p["description"] for p in reach if p["status"] == "FAILURE"}
        dead = sorted({p["description"] for p in dead if p["description"] not in hit})
        if dead:
            res["error"] = "vacuous: witness not reachable: " + ", ".join(dead)
            return res
        if not reach:
            res["error"] = "harness has no reachability witness"
            return res
        if job.validate_reach:
            seen = set()
            for n, p in enumerate(reach):
                if p["status"] != "FAILURE" or p["description"] in seen:
                    continue
                seen.add(p["description"])
                vals = p["trace"]
                ok = False
                for cand in ([vals[1:], vals] if vals and vals[0] == 0 else [vals]):
                    v, txt = replay(exe, cand, d, "r%d" % n, pad=True, timeout=job.native_timeout)
                    if "VF-REACH: " + p["description"][7:] in txt and v in ("ok", "exhausted", "assume"):
                        ok = True
                        res.setdefault("samples", []).append(
                            {"job": job.name, "witness": p["description"], "values": cand[:40]})
                        break
                if not ok:
                    res["error"] = "witness trace does not replay natively: %s (%s: %s)" % (
                        p["description"], v, txt[-400:])
                    return res
                res["witnesses_validated"] += 1
        res["verdict"] = "ok"
        res["functions"] = repo_functions_of(job, gb)
        return res
    except Undecided as e:
        res["verdict"] = "undecided"
        res["error"] = str(e)
        return res
    except JobError as e:
        res["error"] = str(e)
        return res
    finally:
        res["wall_s"] = round(time.time() - t0, 2)
        if keep:
            shutil.copytree(d, keep, dirs_exist_ok=True)
        shutil.rmtree(d, ignore_errors=True)


def repo_functions_of(job, gb):
    """functions of /repo reachable from the harness, i.e. encoded in the formula"""
    rc, so, se, _ = run(["goto-instrument", "--reachable-call-graph", gb], 60)
    names = set()
    for m in re.finditer(r"^(\S+) -> (\S+)$", so, re.M):
        names.update(m.groups())
    rc, so, se, _ = run(["cbmc", gb, "--show-symbol-table", "--json-ui"], 60)
    out = set()
    try:
        for item in json.loads(so):
            for n, s in item.get("symbolTable", {}).items():
                f = s.get("location", {}).get("file", "")
                f = os.path.join(s.get("location", {}).get("workingDirectory", ""), f)
                if n in names and f.startswith(REPO + "/") and s.get("type", {}).get("id") == "code":
                    out.add("%s:%s" % (os.path.basename(f), s.get("baseName", n)))
    except (ValueError, AttributeError):
        pass
    return sorted(out)
