"""Shared machinery of the checks: build drivers from /repo's working tree, run
them, validate their logs with TLC, report."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
THOROUGH = TIER == "thorough"
JOBS = max(1, min(8, os.cpu_count() or 8))
T0 = time.time()


class Infra(Exception):
    """the check itself failed; nothing is known about the property"""


def say(*a):
    print(*a, flush=True)


class Work:
    """scratch directory, removed at the end"""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="verif-")

    def path(self, *p):
        q = os.path.join(self.dir, *p)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        return q

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def parallel(tasks, jobs=JOBS):
    """tasks: callables; results in order; the first Infra is raised"""
    with cf.ThreadPoolExecutor(max_workers=jobs) as ex:
        fs = [ex.submit(t) for t in tasks]
        return [f.result() for f in fs]


def compile_cxx(out, source, defs=(), flags=(), libs=("-llapack", "-lblas"), cxx="g++", opt="-O0", timeout=600):
    cmd = [cxx, "-std=c++17", opt, "-w", "-I" + os.path.join(REPO, "include"), "-I" + HARNESS]
    cmd += ["-D" + d for d in defs] + list(flags) + [source, "-o", out] + list(libs)
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode != 0:
        raise Infra("compilation failed: " + " ".join(cmd) + "\n" + p.stdout[-3000:])
    return out


def run_proc(cmd, timeout, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=cwd, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf8", "replace"), False
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return -9, out.decode("utf8", "replace"), True


STATS = {"states": 0, "distinct": 0, "tlc_runs": 0}


def tlc(work, module, cfg, env=None, timeout=800, workers=1, xmx="3g", deadlock=False, extra=(), jvm=()):
    """run TLC; returns dict with rc, out, printed tuples, states, violated"""
    h = hashlib.sha1((module + cfg + repr(sorted((env or {}).items())) + repr(time.time())).encode()).hexdigest()[:12]
    cfgp = work.path("cfg", h + ".cfg")
    with open(cfgp, "w") as f:
        f.write(cfg)
    meta = work.path("tlc", h, "x")
    tmp = work.path("tmp", h, "x")
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + xmx, "-Xss32m",
           "-Djava.io.tmpdir=" + os.path.dirname(tmp)] + list(jvm) + ["-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-noGenerateSpecTE", "-metadir", os.path.dirname(meta), "-config", cfgp]
    if not deadlock:
        cmd += ["-deadlock"]
    cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
    rc, out, timed = run_proc(cmd, timeout, env=env, cwd=SPEC)
    shutil.rmtree(os.path.dirname(meta), ignore_errors=True)
    shutil.rmtree(os.path.dirname(tmp), ignore_errors=True)
    r = {"rc": rc, "out": out, "timeout": timed, "cmd": " ".join(cmd)}
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    r["states"] = int(m[-1][0].replace(",", "")) if m else 0
    r["distinct"] = int(m[-1][1].replace(",", "")) if m else 0
    r["violated"] = re.findall(r"(?:Invariant|Property|Action property|Temporal properties?) ?(\w*) (?:is|was|were) violated", out)
    r["tuples"] = [re.findall(r'"(?:[^"\\]|\\.)*"|-?\d+', t) for t in re.findall(r"^<<(.*)>>$", out, re.M)]
    r["complete"] = "Model checking completed" in out or "The depth of the complete state graph" in out
    STATS["states"] += r["states"]
    STATS["distinct"] += r["distinct"]
    STATS["tlc_runs"] += 1
    return r


def cfg_text(constants, spec="Spec", invariants=(), properties=(), postcondition=None, constraint=None, more=""):
    s = ""
    for k, v in constants.items():
        s += f"CONSTANT {k} = {v}\n"
    s += f"SPECIFICATION {spec}\n"
    for i in invariants:
        s += f"INVARIANT {i}\n"
    for i in properties:
        s += f"PROPERTY {i}\n"
    if postcondition:
        s += f"POSTCONDITION {postcondition}\n"
    if constraint:
        s += f"CONSTRAINT {constraint}\n"
    return s + "CHECK_DEADLOCK FALSE\n" + more


def tla_set(xs):
    return "{" + ", ".join('"%s"' % x for x in sorted(xs)) + "}"


def validate(work, module, cfg, log, timeout=800, env=None, focal=None):
    """Trace validation of one log file.  Returns dict:
    verdict "ok"/"bad", line (of the rejected event), known, judged, known lines."""
    for attempt in (1, 2):
        e = {"TRACE": log}
        e.update(env or {})
        r = tlc(work, module, cfg, env=e, timeout=timeout)
        bad = [t for t in r["tuples"] if t and t[0] == '"BAD"']
        counts = [t for t in r["tuples"] if t and t[0] == '"COUNTS"']
        known = [t for t in r["tuples"] if t and t[0] == '"KNOWN"']
        res = {"log": log, "states": r["states"], "known": known, "judged": 0, "skipped": 0, "line": None, "why": ""}
        if counts and not bad:
            res["judged"] = int(counts[-1][1])
            res["skipped"] = int(counts[-1][3])
        if r["rc"] == 0 and not bad and r["complete"]:
            res["verdict"] = "ok"
            return res
        if bad and r["violated"]:
            res["verdict"] = "bad"
            res["line"] = int(bad[0][1])
            res["why"] = "event rejected by " + module + ": " + " ".join(bad[0])
            if attempt == 2:
                return res
            continue  # a rejection has to repeat
        # evaluation error: the observed result cannot be interpreted
        if not r["timeout"] and ("Attempted" in r["out"] or "verflow" in r["out"] or "was undefined" in r["out"]
                                 or "CHOOSE" in r["out"] or "nonexistent" in r["out"]) and "Parsing or semantic" not in r["out"]:
            res["line"] = max(2, r["distinct"] + 1)
            with open(log) as f:
                lines = f.readlines()
            ev = json.loads(lines[res["line"] - 1]) if res["line"] <= len(lines) else {}
            if focal is None or ev.get("op") in focal:
                res["verdict"] = "bad"
                m = re.search(r"(Attempted[^\n]*|[^\n]*verflow[^\n]*|[^\n]*undefined[^\n]*|[^\n]*CHOOSE[^\n]*|[^\n]*nonexistent[^\n]*)", r["out"])
                res["why"] = "event outside the domain of the specification: " + str(ev.get("op")) + ": " + (m.group(1) if m else "")
                if attempt == 2:
                    return res
                continue
        tail = "\n".join(x for x in r["out"].splitlines() if not x.startswith(("Parsing", "Semantic")))[-2500:]
        raise Infra(f"TLC failed (rc {r['rc']}, timeout {r['timeout']}) on {log}:\n{tail}")


def known_findings(pid):
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        d = json.load(f)
    return [x for x in d["findings"] if x["property"] == pid]


class Report:
    def __init__(self, pid, level):
        self.pid = pid
        self.level = level
        self.violations = []
        self.known = {}
        self.cov = {}
        self.samples = []
        self.assumptions = []

    def violation(self, why, replay_lines=None, replay_name=None, files=()):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        name = replay_name or f"{self.pid}-{len(self.violations) + 1}.ndjson"
        path = os.path.join(d, name)
        with open(path, "w") as f:
            f.write("".join(replay_lines or [why + "\n"]))
        self.violations.append((why, path))

    def finish(self):
        ev = {
            "property": self.pid, "tier": TIER, "seed": SEED, "level": self.level,
            "coverage": dict(self.cov, samples=self.samples[:5]),
            "assumptions": self.assumptions, "wall_s": round(time.time() - T0, 1), "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k, what in sorted(self.known.items()):
            say(f"KNOWN-FINDING: property={self.pid} {k} {what}")
        for why, path in self.violations:
            say("# " + why)
            say(f"VIOLATION property={self.pid} replay={path}")
        if self.violations:
            return 1
        say(f"OK property={self.pid} " + " ".join(f"{k}={v}" for k, v in self.cov.items() if isinstance(v, (int, float))))
        return 0


def case_lines(log, line):
    """the header and the case that contains the (1-based) line, up to it"""
    with open(log) as f:
        ls = f.readlines()
    b = min(line, len(ls)) - 1
    while b > 0 and '"op":"begin"' not in ls[b]:
        b -= 1
    return ls[:1] + (ls[b:line] if b > 0 else ls[1:line])


def main(pid, level, fn):
    work = Work()
    rep = Report(pid, level)
    try:
        fn(work, rep)
        return rep.finish()
    except Infra as e:
        say("ERROR (the check failed, nothing is known about the property):", str(e)[:6000])
        return 2
    finally:
        work.close()
