"""Checks of the rest of the repository: names, lazy graphs, scratch memory,
messages between processes, the square lattice.  Each one checks an explicit
machine exhaustively with TLC (the design) and validates recorded behaviours of
the real code against the specification (the implementation)."""
import json
import os
import random
import re

import vlib
from tensor_checks import run_driver, split_log
from vlib import SEED, Infra

LEVEL = {}
CHECKS = {}


def machine(work, rep, module, constants, spec, invariants=(), properties=(), workers=4, timeout=700, xmx="6g", constraint=None, more=""):
    """exhaustive exploration of a model; a violation of the model is an error of
    the machinery, because the model does not depend on /repo"""
    cfg = vlib.cfg_text(constants, spec=spec, invariants=invariants, properties=properties, constraint=constraint, more=more)
    r = vlib.tlc(work, module, cfg, workers=workers, timeout=timeout, xmx=xmx)
    if r["rc"] != 0 or not r["complete"]:
        raise Infra(f"model {module} {constants} failed:\n" + r["out"][-3000:])
    rep.cov.setdefault("models", []).append({"module": module, "constants": constants, "states": r["distinct"],
                                             "checked": list(invariants) + list(properties)})
    return r


def scripts(work, module, constants, spec, workers=4, timeout=300, keep=None):
    """behaviours printed by a specification as S:... lines"""
    cfg = vlib.cfg_text(constants, spec=spec, invariants=["Emit"])
    r = vlib.tlc(work, module, cfg, workers=workers, timeout=timeout, xmx="6g")
    if r["rc"] != 0 or not r["complete"]:
        raise Infra(f"{module} failed:\n" + r["out"][-3000:])
    out = re.findall(r'^"S:(.*)"$', r["out"], re.M)
    return sorted(x for x in out if keep is None or keep(x))


def judge_logs(pid, work, rep, logs, module, focal, constants=None, invariants=("Conforms",), size=20000, label="", timeout=800):
    """logs: [(label, path)]"""
    pieces = []
    for k, (lab, log) in enumerate(logs):
        pieces += [(lab, p) for p in split_log(work, log, f"j{module}{k}", size)]
    pieces.sort(key=lambda x: -os.path.getsize(x[1]))
    const = dict(constants or {})
    const["Focal"] = vlib.tla_set(focal)

    def one(x):
        def f():
            cfg = vlib.cfg_text(const, invariants=invariants, postcondition="Accepted")
            r = vlib.validate(work, module, cfg, x[1], focal=None, timeout=timeout)
            r["label"] = x[0]
            return r
        return f

    results = vlib.parallel([one(x) for x in pieces])
    cov = rep.cov
    rnd = random.Random(SEED)
    distinct = set()
    for r in results:
        cov["states"] = cov.get("states", 0) + r["states"]
        cov["transitions"] = cov.get("transitions", 0) + max(0, r["states"] - 1)
        cov["traces_validated_against_impl"] = cov.get("traces_validated_against_impl", 0) + 1
        cov["events_judged"] = cov.get("events_judged", 0) + r["judged"]
        with open(r["log"]) as f:
            for l in f:
                if l.startswith('{"op":"begin"'):
                    cov["cases"] = cov.get("cases", 0) + 1
                    continue
                op = l[7:l.index('"', 7)]
                if op in focal:
                    distinct.add(hash(l))
                    if len(rep.samples) < 4 and len(l) < 700 and rnd.random() < 0.01:
                        rep.samples.append({"variant": r["label"], "event": json.loads(l)})
        if r["verdict"] == "bad":
            lines = vlib.case_lines(r["log"], r["line"])
            rep.violation(f"{r['label']}: {r['why']}", lines, f"{pid}-{len(rep.violations) + 1}.ndjson")
    cov["distinct_judged_events"] = cov.get("distinct_judged_events", 0) + len(distinct)
    cov.setdefault("operations", focal)
    if sum(r["judged"] for r in results) == 0 and not rep.violations:
        raise Infra("nothing was judged")
    return results


# ------------------------------------------------------------------------ C16
def lazy(work, rep):
    t = vlib.THOROUGH
    b = vlib.compile_cxx(work.path("bin", "lazy"), os.path.join(vlib.HARNESS, "lazy_driver.cpp"))
    machine(work, rep, "LazyMachine", {"Size": 4 if t else 3, "Vals": "{1, 2}", "MaxSnap": 1, "MaxOps": 5}, "MSpec", ["Refines", "Closed"], workers=8)
    ss = scripts(work, "LazyScripts", {"Size": 3, "Vals": "{1}", "MaxSnap": 1, "MaxOps": 4 if t else 3}, "SSpec",
                 workers=8, keep=lambda x: "n " in x or "p " in x, timeout=600)
    rep.cov["model_histories_replayed"] = len(ss)
    logs = []
    for k in range(8):
        p = work.path(f"scripts{k}.txt")
        with open(p, "w") as f:
            f.writelines(x + "\n" for x in ss[k::8])
        logs += [("all histories of LazyScripts", x) for x in run_driver(work, b, "script:" + p, len(ss), 1, f"s{k}")]
    n = 40 if t else 8
    for k in range(n):
        logs += [("random histories", x) for x in run_driver(work, b, "lazy", 500, SEED * 7919 + k * 104729, f"r{k}")]
    judge_logs("C16", work, rep, logs, "LazyTrace", ["get"], invariants=["Conforms", "Consistent"])
    rep.cov["rule"] = ("every history LazyScripts prints within its bounds, and random longer ones, on the real library; each get must return the "
                       "value LazyGraph gives and run exactly the functions of the nodes LazyGraph needs")


CHECKS["C16"] = lazy


# ------------------------------------------------------------------------ C15
def names(work, rep):
    t = vlib.THOROUGH
    b = vlib.compile_cxx(work.path("bin", "name"), os.path.join(vlib.HARNESS, "name_driver.cpp"))
    machine(work, rep, "NameMachine", {"Strings": '{"", "a", "b", "c"}' if t else '{"", "a", "b"}', "MaxNames": 4}, "Spec",
            ["Faithful", "Unique", "Bijection"], workers=8)
    n = 80 if t else 16
    logs = [x for r in vlib.parallel([lambda k=k: run_driver(work, b, "name", 200, SEED * 7919 + k * 104729, f"n{k}") for k in range(n)]) for x in r]
    judge_logs("C15", work, rep, [("random histories", x) for x in logs], "NameTrace", ["name", "recheck", "restore"],
               invariants=["Conforms", "OrderSound"], size=3000)
    rep.cov["rule"] = ("random histories of making names from strings, C strings, text and binary streams, among thousands of others, with the table "
                       "dumped, reloaded and taken over by a second process; every name is compared with every earlier one of its history")


CHECKS["C15"] = names


# ------------------------------------------------------------------------ C18
def scratch(work, rep):
    t = vlib.THOROUGH
    b = vlib.compile_cxx(work.path("bin", "scratch"), os.path.join(vlib.HARNESS, "scratch_driver.cpp"))
    machine(work, rep, "ScratchMachine",
            {"BufSizes": "{3, 8}", "Sizes": "{0, 1, 3, 9}", "Aligns": "{1, 2, 4}" if t else "{1, 4}", "MaxAlign": 4, "Depth": 3 if t else 2,
             "MaxAllocs": 4 if t else 3, "FirstNext": 4}, "MSpec", ["Sound", "Clean"], workers=8, xmx="12g", timeout=2000)
    n = 160 if t else 24
    logs = [x for r in vlib.parallel([lambda k=k: run_driver(work, b, "scratch", 150, SEED * 7919 + k * 104729, f"c{k}") for k in range(n)]) for x in r]
    judge_logs("C18", work, rep, [("random histories", x) for x in logs], "ScratchTrace",
               ["enter", "alloc", "free", "released", "left", "check", "lib", "kept"], invariants=["Conforms", "Sound"], size=6000)
    rep.cov["rule"] = ("random nestings of up to four scopes of ten sizes with allocations of 0 to 9000 bytes and alignment 1 to 16 in any open scope, "
                       "containers, tensor operations (also refused ones), releases and exceptions; the regions come from a recording stand-in for "
                       "ordinary memory and from the scope objects, and contents are written and read back")


CHECKS["C18"] = scratch


# ------------------------------------------------------------------------ C17
MPI_ENV = {"OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1", "OMPI_MCA_btl": "self,vader",
           "OMPI_MCA_btl_vader_single_copy_mechanism": "none", "OMPI_MCA_plm_rsh_agent": ""}


def mpi_flags():
    c = vlib.run_proc(["mpicxx", "--showme:compile"], 60)[1].split()
    l = vlib.run_proc(["mpicxx", "--showme:link"], 60)[1].split()
    if not l:
        raise Infra("mpicxx does not work")
    return c, l


def join_ranks(work, prefix, size, tag):
    """the logs of the processes as one log of operations with all inputs and results"""
    per = []
    for r in range(size):
        try:
            with open(f"{prefix}.{r}") as f:
                per.append([json.loads(x) for x in f if x.endswith("}\n")])
        except OSError:
            per.append([])
    if not any(per):
        raise Infra("the processes did not start")
    out = [{"op": "meta"}, {"op": "begin", "i": 0}]
    k = 1
    while True:
        evs = [p[k] if k < len(p) else {"op": "crash"} for p in per]
        ops = {e["op"] for e in evs}
        if ops == {"end"}:
            out.append({"op": "crash", "in": "a message was never received"} if any(e["left"] for e in evs) else {"op": "end"})
            break
        if len(ops) != 1 or ops & {"crash", "hang"}:
            out.append({"op": "hang" if "hang" in ops else "crash", "in": str([e.get("op") for e in evs])})
            break
        e = dict(evs[0])
        e["ins"] = [x["in"] for x in evs]
        e["out"] = [x["out"] for x in evs]
        del e["in"]
        out.append(e)
        k += 1
    p = work.path("log", tag + ".ndjson")
    with open(p, "w") as f:
        f.writelines(json.dumps(x, separators=(",", ":")) + "\n" for x in out)
    return p


def mpi(work, rep):
    t = vlib.THOROUGH
    c, l = mpi_flags()
    b = vlib.compile_cxx(work.path("bin", "mpi"), os.path.join(vlib.HARNESS, "mpi_driver.cpp"), flags=c, libs=["-llapack", "-lblas"] + l)
    for n, k in ([(2, 3), (3, 3), (4, 3), (5, 2), (6, 2), (7, 1), (8, 1)] if t else [(2, 2), (3, 2), (4, 2), (5, 1), (6, 1)]):
        for sync in ("TRUE", "FALSE"):
            machine(work, rep, "MpiMachine", {"N": n, "Len2": k, "Sync": sync}, "Spec", ["Live", "Right"], workers=8, timeout=2000, xmx="12g")

    def drive(size, mode, k):
        def f():
            prefix = work.path("mpi", f"{size}{mode}{k}")
            count = 120
            cmd = ["mpirun", "--oversubscribe", "-n", str(size), b, mode, str(SEED * 7919 + k * 104729 + size), str(count), prefix]
            for attempt in range(3):
                for r in range(size):
                    if os.path.exists(f"{prefix}.{r}"):
                        os.remove(f"{prefix}.{r}")
                rc, out, timed = vlib.run_proc(cmd, 200, env=MPI_ENV)
                if any(os.path.exists(f"{prefix}.{r}") for r in range(size)):
                    break
            else:
                raise Infra("mpirun failed: " + out[-1500:])
            return (f"{size} processes, mode {mode}", join_ranks(work, prefix, size, f"m{size}{mode}{k}"))
        return f

    jobs = [drive(size, mode, k) for k in range(6 if t else 1) for mode in ("n", "s", "sd", "d") for size in range(8, 0, -1)]
    logs = vlib.parallel(jobs, jobs=3)
    judge_logs("C17", work, rep, logs, "MpiTrace", ["bcast", "reduce", "sum", "send", "reject", "barrier"])
    rep.cov["rule"] = ("1 to 8 processes, every root drawn, random sequences of operations without barriers between them, with sends that wait for "
                       "their receiver and random delays in some runs; each operation's results on all processes are compared with Collective")


CHECKS["C17"] = mpi


# -------------------------------------------------------------------- C19-C23
def square_binaries(work, opt="-O0"):
    c, l = mpi_flags()
    src = os.path.join(vlib.HARNESS, "square_driver.cpp")
    libs = ["-llapack", "-lblas"] + l
    return vlib.parallel([lambda: vlib.compile_cxx(work.path("bin", "square"), src, flags=c, libs=libs, opt=opt),
                          lambda: vlib.compile_cxx(work.path("bin", "squares"), src, flags=c + ["-DTAT_USE_SIMPLE_NOSYMMETRY"], libs=libs, opt=opt)])


def square_runs(work, bins, family, count, pieces, tag):
    jobs = [lambda k=k: run_driver(work, bins[k % 2], family, count, SEED * 7919 + k * 104729, f"{tag}{k}") for k in range(pieces)]
    return [(family, x) for r in vlib.parallel(jobs) for x in r]


def auxiliaries(work, rep):
    t = vlib.THOROUGH
    bins = square_binaries(work)
    logs = square_runs(work, bins, "aux", 150 if t else 60, 80 if t else 16, "a")
    judge_logs("C20", work, rep, logs, "SquareTrace", ["amp", "rep", "hole", "ws", "wss"], invariants=["Conforms", "Consistent"], size=700)
    rep.cov["rule"] = "square networks of up to 9 sites, histories of setting and clearing tensors or spins and of asking for amplitudes, amplitudes with one site or two neighbours replaced, and holes, in any order and with every hint; each result is compared with the exact contraction SquareNetwork!Contract or !Hole"


CHECKS["C20"] = auxiliaries


def exact_lattice(work, rep):
    t = vlib.THOROUGH
    bins = square_binaries(work)
    logs = square_runs(work, bins, "exact", 300 if t else 120, 80 if t else 16, "e")
    judge_logs("C23", work, rep, logs, "SquareTrace", ["power", "observe", "energy", "norm", "spinops"], invariants=["Conforms"], size=1500)
    rep.cov["rule"] = "lattices of up to 6 sites, random terms of one to three sites in any order, histories of power steps and observations; each is compared with SquareNetwork!Power and !Expect on integers"


CHECKS["C23"] = exact_lattice


def simple_update(work, rep):
    t = vlib.THOROUGH
    bins = square_binaries(work)
    logs = square_runs(work, bins, "simple", 200 if t else 60, 80 if t else 16, "u")

    def drive(size, k):
        def f():
            prefix = work.path("sq", f"mpi{size}-{k}")
            cmd = ["mpirun", "--oversubscribe", "-n", str(size), bins[k % 2], "simple", str(SEED * 7919 + 31 * size + k * 104729), "25", prefix]
            for attempt in range(3):
                for r in range(size):
                    if os.path.exists(f"{prefix}.{r}"):
                        os.remove(f"{prefix}.{r}")
                rc, out, timed = vlib.run_proc(cmd, 300, env=MPI_ENV)
                if all(os.path.exists(f"{prefix}.{r}") for r in range(size)):
                    break
            else:
                raise Infra("mpirun failed: " + out[-1500:])
            ranks = [[json.loads(x) for x in open(f"{prefix}.{r}") if x.endswith("}\n")] for r in range(size)]
            path = work.path("sq", f"joined{size}-{k}.log")
            with open(path, "w") as o:
                for i in range(max(len(r) for r in ranks)):
                    at = [r[i] if i < len(r) else {"op": "none"} for r in ranks]
                    if at[0]["op"] == "none":
                        at[0] = {"op": "agree", "ops": [], "texts": []}
                    o.write(json.dumps(at[0]) + "\n")
                    if at[0]["op"] == "trotter" or len({x["op"] for x in at}) > 1:
                        o.write(json.dumps({"op": "agree", "ops": [x["op"] for x in at], "texts": [x.get("text", "") for x in at]}) + "\n")
            return (f"{size} processes", path)
        return f

    logs += vlib.parallel([drive(size, k) for k in range(6 if t else 1) for size in (4, 3, 2)], jobs=2)
    judge_logs("C19", work, rep, logs, "SquareTrace", ["trotter", "agree"], invariants=["Conforms"], size=1500)
    rep.cov["rule"] = ("lattices of up to 6 sites (4 with three states per site) with random integer or real tensors, histories of up to four calls of update "
                       "with random terms whose gates are exact, on one process and on 2 to 4 under mpirun; the state after each call is compared with "
                       "SquareNetwork!Trotter, and all processes must hold the same lattice")


CHECKS["C19"] = simple_update


def sampling(work, rep):
    t = vlib.THOROUGH
    bins = square_binaries(work, "-O1")
    logs = square_runs(work, bins, "sample", 150 if t else 50, 80 if t else 16, "s")
    logs += square_runs(work, bins, "markov", 100 if t else 30, 80 if t else 16, "m")
    judge_logs("C21", work, rep, logs, "SquareTrace", ["ergodic", "walk", "path", "moves", "balance", "ws"], invariants=["Conforms"], size=600)
    rep.cov["rule"] = "exhaustive sums over all configurations, recorded walks with their means, variances and gradients, and histograms of 1500 single steps against the acceptance rule (6 standard deviations) and against the stationary weights"


CHECKS["C21"] = sampling


def square_io(work, rep):
    t = vlib.THOROUGH
    bins = square_binaries(work)
    logs = square_runs(work, bins, "io", 200 if t else 70, 80 if t else 16, "o")
    judge_logs("C22", work, rep, logs, "SquareTrace", ["hop", "convert", "ws", "wss", "ergodic", "walk", "power", "observe", "energy", "norm", "trotter"],
               invariants=["Conforms"], size=900)
    rep.cov["rule"] = "the histories of C19 to C23 with the lattice going through a file, a copy, a move or an assignment between any two operations, and conversions between the kinds of lattice before and after updates"


CHECKS["C22"] = square_io
