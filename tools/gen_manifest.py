#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed checks."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

NOTE_TENSOR = ("Behaviours of the real library, driven by seeded random arguments over every symmetry, are recorded and each "
               "judged operation is compared by TLC with the value TensorAlgebra.tla gives it. Bounded by the shapes generated; "
               "trusts the projection in harness/tensor_common.hpp, TLC and the installed BLAS/LAPACK.")
CLAIMS = {}
for pid, what in {
    "C01": "block enumeration, element addressing and filling",
    "C02": "transpose, rename, reverse, cut with fermionic signs",
    "C03": "merge and split with fermionic signs",
    "C04": "contraction",
    "C05": "trace",
    "C06": "conjugate and norms",
    "C07": "singular value decomposition",
    "C08": "QR and LQ decomposition",
    "C09": "identity and exponential",
    "C10": "shrink and expand",
    "C11": "arithmetic and scalar conversion",
    "C13": "binary serialisation (IoTrace.tla: a stream is a queue of objects)",
    "C14": "text serialisation (IoTrace.tla)",
    "C24": "refusal of meaningless requests",
    "C12": "value semantics under shared storage (CowTrace.tla: state of five handles, frame condition on every operation)",
}.items():
    CLAIMS[pid] = ("TLA+ specification of the tensor algebra (TLC) with trace validation of the real library: " + what, NOTE_TENSOR)

try:
    from claims_other import CLAIMS as OTHER
    CLAIMS.update(OTHER)
except ImportError:
    pass

NOT_YET = {}
with open(os.path.join(ROOT, "properties.jsonl")) as f:
    ids = [json.loads(l)["id"] for l in f]
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": [
        {"property": p, "quick_cmd": f"python3 tools/check.py {p} quick", "thorough_cmd": f"python3 tools/check.py {p} thorough",
         "evidence_file": f"evidence/{p}.json", "technique": CLAIMS[p][0], "level": "model_checking", "level_note": CLAIMS[p][1]}
        for p in ids if p in CLAIMS
    ],
    "not_applicable": [{"property": p, "reason": NOT_YET.get(p, "no check has been built for it yet")} for p in ids if p not in CLAIMS],
    "notes": "No hooks in /repo: the drivers use the public interface. See DESIGN.md.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
