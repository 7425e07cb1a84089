"""Checks of the tensor library: random behaviours of the real code, recorded
and validated against TensorAlgebra by TensorTrace."""
import json
import os
import random

import vlib
from vlib import SEED, Infra

KIND = {"No": "NoSymmetry", "Z2": "Z2Symmetry", "U1": "U1Symmetry", "Fermi": "FermiSymmetry",
        "FermiZ2": "FermiZ2Symmetry", "FermiU1": "FermiU1Symmetry"}
SCALAR = {"d": "double", "z": "std::complex<double>", "s": "float", "c": "std::complex<float>"}
SMALLCACHE = ("TAT_L1_CACHE=16", "TAT_L2_CACHE=64", "TAT_L3_CACHE=256")
PYTAT = ("TAT_USE_SIMPLE_NOSYMMETRY", "TAT_USE_SINGULAR_MATRIX")
SNAME = ("TAT_USE_SIMPLE_NAME",)
ALL6 = [(k, "d", ()) for k in KIND]
ALL6Z = [(k, "z", ()) for k in KIND]


class V:
    """one driver: symmetry, scalar, build configuration, cases per family"""

    def __init__(self, kind, scalar, defs=(), weight=1.0):
        self.kind, self.scalar, self.defs, self.weight = kind, scalar, tuple(defs), weight

    def __str__(self):
        return "/".join([self.kind, self.scalar] + [d.replace("TAT_", "") for d in self.defs])


def vs(*xs):
    return [x if isinstance(x, V) else V(*x) for x in xs]


STD = vs(*ALL6, ("No", "z"), ("U1", "z"), ("FermiU1", "z"))

# property -> focal operations, families {name: cases per variant}, variants
CHECKS = {
    "C01": dict(fam="BUILD", families={"build": 350}, focal=["create", "at", "setat", "block", "setblock", "scalar", "one"],
                variants=STD + vs(("No", "d", PYTAT), ("U1", "d", SNAME))),
    "C02": dict(fam="EDGE", families={"edge": 260}, big={"bigedge": 12},
                focal=["transpose", "rename", "reverse", "edgeop", "bigtranspose"],
                variants=STD + vs(("No", "d", SMALLCACHE), ("Fermi", "d", SMALLCACHE), ("No", "z", SMALLCACHE), ("No", "d", PYTAT))),
    "C03": dict(fam="MERGE", families={"merge": 220}, focal=["merge", "split", "edgeop"],
                variants=STD + vs(("U1", "d", SMALLCACHE, 2), ("Fermi", "d", SMALLCACHE, 2), ("No", "d", PYTAT))),
    "C04": dict(fam="CONTRACT", families={"contract": 320}, focal=["contract", "contractall"],
                variants=STD + vs(("No", "d", PYTAT), ("No", "c"), ("FermiU1", "d", SMALLCACHE))),
    "C05": dict(fam="TRACE", families={"trace": 380}, focal=["trace"], variants=STD + vs(("No", "d", PYTAT))),
    "C06": dict(fam="CONJ", families={"conj": 260}, focal=["conj", "norm", "norm3", "norm4"], variants=vs(*ALL6, *ALL6Z)),
    "C07": dict(fam="SVD", families={"svd": 200}, focal=["svd", "multiple"],
                variants=STD + vs(("No", "s"), ("No", "c"), ("Fermi", "z"), ("No", "d", PYTAT), ("U1", "d", PYTAT))),
    "C08": dict(fam="QR", families={"qr": 260}, focal=["qr"], variants=STD + vs(("No", "s"), ("No", "c"), ("Fermi", "z"))),
    "C09": dict(fam="EXP", families={"exp": 160}, focal=["identity", "exp"], variants=STD),
    "C10": dict(fam="SHRINK", families={"shrink": 320}, focal=["shrink", "expand"], variants=STD),
    "C11": dict(fam="ARITH", families={"arith": 220}, focal=["binary", "inplace", "scalarop", "scalarinplace", "to", "mixed", "map"],
                variants=STD),
    "C12": dict(fam="COW", families={"cow": 160}, module="CowTrace",
                focal=["cowcopy", "cowrename", "cowmove", "cowdrop", "cowsetat", "cowsetblock", "cowfill", "cowadd", "cowmul", "cowinplace",
                       "cowother", "cowread", "cowreject"],
                variants=STD + vs(("No", "d", PYTAT))),
    "C13": dict(fam="IO", families={"bin": 300}, module="IoTrace", focal=["binwrite", "binread", "ioend"],
                variants=STD + vs(("No", "s"), ("Fermi", "c"), ("No", "d", PYTAT), ("U1", "d", PYTAT), ("FermiU1", "d", SNAME), ("No", "d", SNAME))),
    "C14": dict(fam="IO", families={"text": 300}, module="IoTrace", focal=["textwrite", "textread", "ioend"],
                variants=STD + vs(*ALL6Z, ("No", "s"), ("U1", "c"), ("FermiZ2", "d", SNAME), ("No", "d", PYTAT))),
    "C24": dict(fam="REJECT", families={"reject": 200},
                focal=["rcreate", "rtranspose", "rcontract", "rtrace", "rbinary", "rinplace", "rscalar", "rshrink", "rexpand", "rblock", "rqr"],
                variants=STD + vs(("No", "d", PYTAT))),
}


def run_driver(work, binary, family, count, seed, tag, timeout=300):
    """run the driver to the end of its cases, going on after a crash"""
    logs = []
    start = 0
    for piece in range(40):
        log = work.path("log", f"{tag}.{piece}.ndjson")
        rc, out, timed = vlib.run_proc([binary, family, str(seed), str(count), log, str(start)], timeout,
                                       env={"MALLOC_PERTURB_": "165"})
        try:
            with open(log) as f:
                lines = f.readlines()
        except OSError:
            lines = []
        if not lines:
            raise Infra(f"driver wrote no log: {binary} {family} rc={rc} {out[-500:]}")
        last = json.loads(lines[-1]) if lines[-1].endswith("}\n") else None
        if last is None or last["op"] not in ("end", "crash", "hang"):
            # killed without a signal handler: say so in the log
            op = "unknown"
            with open(log, "w") as f:
                f.writelines(l for l in lines if l.endswith("}\n"))
                f.write(json.dumps({"op": "hang" if timed else "crash", "in": op, "sig": -rc}) + "\n")
            last = {"op": "crash"}
        logs.append(log)
        if last["op"] == "end" or (last["op"] == "hang" and piece >= 2):
            break
        begins = [json.loads(l)["i"] for l in lines if l.startswith('{"op":"begin"')]
        nxt = (begins[-1] if begins else start) + 1
        if nxt >= count:
            break
        start = nxt
    return logs


def split_log(work, log, tag, size):
    """cut a log at case borders into pieces of about `size` events"""
    with open(log) as f:
        lines = f.readlines()
    head, body = lines[0], lines[1:]
    out, cur = [], []
    for l in body:
        if len(cur) >= size and '"op":"begin"' in l:
            out.append(cur)
            cur = []
        cur.append(l)
    if cur:
        out.append(cur)
    res = []
    for i, c in enumerate(out):
        p = work.path("log", f"{tag}-p{i}.ndjson")
        with open(p, "w") as f:
            f.write(head)
            f.writelines(c)
        res.append(p)
    return res


def check(pid, work, rep):
    c = CHECKS[pid]
    scale = 10 if vlib.THOROUGH else 1
    focal = c["focal"]
    variants = list(c["variants"])
    source = os.path.join(vlib.HARNESS, c.get("source", "tensor_driver.cpp"))
    bins = {}

    def build(i, v):
        def f():
            b = work.path("bin", f"d{i}")
            vlib.compile_cxx(b, source, ["SYM=" + KIND[v.kind], "SCALAR=" + SCALAR[v.scalar], "FAM_" + c["fam"]] + list(v.defs))
            bins[i] = b
        return f

    vlib.parallel([build(i, v) for i, v in enumerate(variants)])

    jobs = []
    for i, v in enumerate(variants):
        fams = dict(c["families"])
        if v.kind == "No" and not v.defs and "big" in c:
            fams.update(c["big"])
        for fam, n in fams.items():
            reps = scale
            for k in range(reps):
                jobs.append((i, v, fam, max(1, int(n * v.weight)), SEED * 7919 + k * 104729 + i * 13, f"{fam}-{i}-{k}"))

    def drive(j):
        def f():
            i, v, fam, n, seed, tag = j
            logs = run_driver(work, bins[i], fam, n, seed, tag)
            res = []
            for q, l in enumerate(logs):
                res += [(j, p) for p in split_log(work, l, f"{tag}-{q}", 2000)]
            return res
        return f

    logs = [x for r in vlib.parallel([drive(j) for j in jobs]) for x in r]
    # longest first
    logs.sort(key=lambda x: -os.path.getsize(x[1]))

    def judge(x):
        def f():
            (i, v, fam, n, seed, tag), log = x
            cfg = vlib.cfg_text({"Kind": '"%s"' % v.kind, "Cplx": "TRUE" if v.scalar in "zc" else "FALSE", "Focal": vlib.tla_set(focal)},
                                invariants=["Conforms"], postcondition="Accepted")
            r = vlib.validate(work, c.get("module", "TensorTrace"), cfg, log, focal=focal)
            r["job"] = x[0]
            return r
        return f

    results = vlib.parallel([judge(x) for x in logs])
    summarise(pid, rep, results, focal, variants)


def summarise(pid, rep, results, focal, variants):
    judged = sum(r["judged"] for r in results)
    states = sum(r["states"] for r in results)
    distinct, cases, crashes = set(), 0, 0
    rnd = random.Random(SEED)
    for r in results:
        with open(r["log"]) as f:
            for n, l in enumerate(f):
                if l.startswith('{"op":"begin"'):
                    cases += 1
                elif n:
                    op = l[7:l.index('"', 7)]
                    if op in ("crash", "hang"):
                        crashes += 1
                    if op in focal:
                        distinct.add(hash(l))
                        if len(rep.samples) < 3 and len(l) < 700 and rnd.random() < 0.02:
                            rep.samples.append({"variant": str(r["job"][1]), "event": json.loads(l)})
    findings = {x["id"]: x for x in vlib.known_findings(pid) if x["status"] == "known"}
    for r in results:
        if r["verdict"] == "bad":
            v = r["job"][1]
            lines = vlib.case_lines(r["log"], r["line"])
            rep.violation(f"{v} seed {r['job'][4]}: {r['why']}", lines, f"{pid}-{v.kind}-{v.scalar}-{len(rep.violations) + 1}.ndjson")
        for k in r["known"]:
            fid = k[3].strip('"') if len(k) > 3 else "F01"
            if fid in findings:
                rep.known[fid] = findings[fid]["what"]
            else:
                lines = vlib.case_lines(r["log"], int(k[1]))
                rep.violation("deviation that is not a listed finding: " + " ".join(k), lines)
    rep.cov = {
        "states": states, "transitions": max(0, states - len(results)),
        "traces_validated_against_impl": len(results),
        "cases": cases, "events_judged": judged, "distinct_judged_events": len(distinct), "driver_crashes_or_hangs": crashes,
        "events_matching_a_known_finding": sum(len(r["known"]) for r in results),
        "builds": [str(v) for v in variants], "operations": focal,
        "rule": "random shapes, names, symmetries, values and arguments from VERIF_SEED; every logged operation in `operations` is compared "
                "with the value TensorAlgebra gives it",
    }
    if judged == 0 and not rep.violations:
        raise Infra("nothing was judged")
