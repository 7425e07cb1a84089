#!/usr/bin/env python3
"""check.py ID: decide property ID for /repo's working tree (see DESIGN.md)"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib


def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
        vlib.TIER = sys.argv[2]
        vlib.THOROUGH = sys.argv[2] == 'thorough'
    import tensor_checks
    if pid in tensor_checks.CHECKS:
        return vlib.main(pid, "model_checking", lambda w, r: tensor_checks.check(pid, w, r))
    import other_checks
    return vlib.main(pid, other_checks.LEVEL.get(pid, "model_checking"), lambda w, r: other_checks.CHECKS[pid](w, r))


if __name__ == "__main__":
    sys.exit(main())
