"""Decide one property of /repo:  python3-vt check.py C07 [--tier quick|thorough] [--only TEXT] [-v]"""
import argparse
import json
import multiprocessing as mp
import os
import sys
import time

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from sa import runner  # noqa: E402

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--stop", action="store_true", help="stop at the first violation (developer option)")
    a = ap.parse_args()
    mp.set_start_method("fork", force=True)
    sys.exit(runner.main(a.property, a.tier, a.only, a.jobs, a.v, HERE, a.stop))
