"""Development aid, not a check: compare what the engine derives for a driver program with what real
Python computes for it on the same numbers.   python3-vt tools/xcheck.py C01 [filter]"""
import os
import sys
import types
import warnings

sys.dont_write_bytecode = True
os.environ.setdefault("OMP_NUM_THREADS", "1")
sys.path.insert(0, "/verif")
sys.path.insert(0, "/repo")
sys.path.insert(0, "/verif/sa/scen")
import importlib
import numpy as np
warnings.simplefilter("ignore")
from sa import checks, dag as D, harness as H

cur = {}


def val(name, dist="data", lo=None, hi=None, **kw):
    n = D.sym(name, dist, isint=dist in ("count", "int"), isbool=dist == "coin", lo=lo, hi=hi, **kw)
    x = cur["ev"].get(n)[cur["k"]]
    return int(x) if dist in ("count", "int") else bool(x) if dist == "coin" else float(x)


def row(p, i, name="x"):
    return np.array([val(f"{name}{i}_{j}", row=i, col=j) for j in range(p)])


def rows(T, p, name="x", start=0):
    return np.array([row(p, i, name) for i in range(start, start + T)]).reshape(T, p)


def spd(p, name):
    L = np.zeros((p, p))
    for i in range(p):
        for j in range(i + 1):
            L[i, j] = val(f"{name}L{i}_{j}", "pos", lo=1e-6) if i == j else val(f"{name}L{i}_{j}")
    return L @ L.T


av = types.ModuleType("av")
av.sym, av.row, av.rows, av.spd = val, row, rows, spd
av.rowlist = lambda T, p, name="x", start=0: list(rows(T, p, name, start))
av.scribble = lambda *a, **k: None
av.steps = lambda: 0
av.size = lambda v: 0
av.cells = lambda v: ()
av.shares = lambda a, b: False
sys.modules["av"] = av


def norm(v):
    if isinstance(v, np.ndarray):
        return ("array", tuple(v.shape), tuple(norm(x) for x in v.ravel().tolist()))
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, float, np.number)):
        return float(v)
    if isinstance(v, tuple):
        return tuple(norm(x) for x in v)
    if isinstance(v, list):
        return ["list"] + [norm(x) for x in v]
    if isinstance(v, dict):
        return {k if not isinstance(k, tuple) else repr(k): norm(x) for k, x in v.items()}
    if isinstance(v, type):
        return ("class", v.__name__)
    if v is None or isinstance(v, str):
        return v
    return ("other", type(v).__name__)


def main():
    prop, flt = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else ""
    step = int(sys.argv[3]) if len(sys.argv) > 3 else 1
    tot = bad = und = skip = 0
    for ob in [o for o in checks.CHECKS[prop]("quick") if flt in o["id"] and "fn" in o][::step]:
        s = H.session(ob["module"])
        for v in ("A", "B") if ob.get("two") else (None,):
            try:
                r = s.run(ob["module"], ob["fn"], ([v] if v else []) + ob["args"])
            except H.Undecided as e:
                und += 1
                print("undecided", ob["id"], e)
                continue
            ev = D.Interp(24, 5)
            m = importlib.import_module(ob["module"])
            for k in (0, 1, 3, 4, 5, 6, 7, 8, 9, 10, 11):
                cur.update(ev=ev, k=k)
                try:
                    oc = H.outcome(r, ev, k)
                except H.Skip:
                    skip += 1
                    continue
                with np.errstate(all="ignore"):
                    try:
                        real = getattr(m, ob["fn"])(*([v] if v else []), *[list(a) if isinstance(a, list) else a for a in ob["args"]])
                        ro = None
                    except Exception as e:
                        real, ro = None, type(e).__name__
                if (oc is None) != (ro is None):
                    bad += 1
                    print("OUTCOME", ob["id"], v, k, oc, ro)
                    break
                if oc is not None:
                    continue
                mine = [H.seq(r, x) for x in H.seq(r, r.value)]
                if len(mine) != len(real):
                    print("LEN", ob["id"], len(mine), len(real))
                    bad += 1
                    break
                stop = False
                for a, b in zip(mine, real):
                    for q in range(1, len(b)):
                        x, y = H.conc(a[q], r.heap, ev, k), norm(b[q])
                        ns = []
                        H.nums(x, ns), H.nums(y, ns)
                        d = H.differ(x, y, max(ns, default=0), 1e-6)
                        tot += 1
                        if d:
                            pv = [D.Interp(24, 5, pert=1e-11)]
                            if H.unstable(a[q], a[q], r, r, x, x, pv, k, 1e-7):
                                skip += 1
                                continue
                            bad += 1
                            stop = True
                            print("DIFF", ob["id"], v, k, b[0], d)
                            break
                    if stop:
                        break
                if stop:
                    break
    print(f"{prop}: {tot} observations compared, {bad} drivers differ, {und} undecided, {skip} skipped")


checks.CHECKS["ragged"] = lambda tier: [{"id": f"lists of {n}", "module": "smoke", "fn": "ragged", "args": [n]}
                                        for n in (1, 2, 3, 4)]
main()
