"""usage: main.py <PROPERTY-ID> [--tier quick|thorough] [--replay FILE]"""
import argparse
import importlib
import os
import sys

for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMBA_NUM_THREADS"):
    os.environ[v] = "1"
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, "/repo"]

import core  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--replay", default=None)
    a = ap.parse_args()
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    mod = importlib.import_module(a.prop.lower())
    if a.replay:
        return core.replay(mod, a.replay)
    return core.run_check(mod, tier)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
