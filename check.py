"""Entry point: check.py <property> [--tier quick|thorough] [--replay FILE] [-v]"""
import argparse
import os
import sys

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("MC_REPO", "/repo")
sys.path.insert(0, REPO)

ap = argparse.ArgumentParser()
ap.add_argument("property")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
ap.add_argument("--replay")
ap.add_argument("-v", action="store_true")
args = ap.parse_args()

from mc import core  # noqa: E402

sys.exit(core.run(args.property, args.tier, int(os.environ.get("VERIF_SEED") or 1), args.replay, verbose=args.v))
