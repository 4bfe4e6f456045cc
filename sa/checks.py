"""The obligations of every property."""
from __future__ import annotations

import ast
import os

from . import dag, harness as H, lint

BASE = ["empirical", "diagonal", "block", "block1", "ewa", "adaptive", "ledoitwolf", "oas", "shrunk", "shrunk-id",
        "schur", "schur-geo", "schurcond", "schurlw", "partial", "huber", "tyler", "geodesic", "dcc", "dcc1",
        "factor", "factor1"]
COMPOSITE = ["cond", "cond-huber", "cond-skater", "cond-default"]
CLASS_OF = {
    "empirical": "EmpiricalCovariance", "diagonal": "DiagonalCovariance", "block": "BlockCovariance",
    "block1": "BlockCovariance", "ewa": "EwaCovariance", "adaptive": "AdaptiveEwaCovariance",
    "ledoitwolf": "LedoitWolfCovariance", "oas": "OASCovariance", "shrunk": "ShrunkCovariance",
    "shrunk-id": "ShrunkCovariance", "schur": "SchurCovariance", "schur-geo": "SchurCovariance",
    "schurcond": "SchurConditionalCovariance", "schurlw": "SchurLedoitWolfCovariance",
    "partial": "PartialMomentsCovariance", "huber": "HuberCovariance", "tyler": "TylerCovariance",
    "geodesic": "GeodesicEwaCovariance", "dcc": "DCCCovariance", "dcc1": "DCCCovariance",
    "factor": "FactorCovariance", "factor1": "FactorCovariance"}

_names = None


def registered():
    """Names in the estimator registry, by interpreting it."""
    global _names
    if _names is None:
        s = H.Session()
        r = s.run("smoke", "names", [])
        if r.value is None:
            raise H.Broken("the estimator registry cannot be read")
        _names = [x for x in H.seq(r, r.value)]
    return _names


def configs(composite=True):
    reg = registered()
    out = [c for c in BASE if CLASS_OF[c] in reg]
    out += [n for n in reg if n not in CLASS_OF.values()]
    if len(out) < len(BASE):
        missing = sorted({CLASS_OF[c] for c in BASE} - set(reg))
        # classes dropped from the registry are still shipped: keep analysing them by name
        out += [c for c in BASE if CLASS_OF[c] in missing]
    return out + (COMPOSITE if composite else [])


def ob(oid, module, fn, args, **kw):
    return dict(id=oid, module=module, fn=fn, args=list(args), **kw)


def diffs(c):
    return (False,) if c in COMPOSITE else (False, True)


dag.THRESHOLDS[:] = lint.thresholds()


def wide():
    """Dimensions just past the whole numbers the package compares with, beyond those always analysed."""
    return sorted({c + 1 for c in dag.THRESHOLDS if 6 <= c <= 24})


def counts(lo, hi):
    """Counts just past the whole numbers the package compares with."""
    return sorted({c + 1 for c in dag.THRESHOLDS if lo <= c <= hi})


def long():
    """[(dimension, rows)] just past the whole numbers the package compares with, beyond the histories always analysed."""
    return [(2 if c <= 20 else 1, c + 2) for c in dag.THRESHOLDS if 7 <= c <= 130]


def shapes(tier):
    base = [(3, 8), (1, 7), (4, 8), (6, 7)] if tier == "quick" else [(3, 8), (1, 7), (2, 9), (4, 8), (5, 10), (6, 9)]
    return base + [(p, 7) for p in wide()]


def c01(tier):
    out = []
    for c in configs():
        for d in diffs(c):
            for p, T in shapes(tier) + long():
                hows = ["one"] if T > 12 else ["fit", "split", "one"] if tier == "quick" and p != 3 else \
                    ["fit", "one", "split", "split2", "lists", "fit-then", "empty", "fortran", "y",
                     "integers", "lists of integers", "booleans"]
                for how in hows:
                    out.append(ob(f"{c} diff={d} p={p} rows={T} {how}", "contract", "stream",
                                  [c, p, T, d, how], two=True, minpairs=8))
    return out + big("stream")


def big(fn):
    """One large batch, just past the numbers the package compares with."""
    return [ob(f"{c} diff={d} p=1 rows={T} one", "contract", fn, [c, 1, T, d, "one"], two=True, minpairs=8)
            for T in counts(131, 4100) for c, d in (("empirical", False), ("empirical", True), ("cond", False))]


def c02(tier):
    out = []
    for c in configs():
        for d in diffs(c):
            for p, T in shapes(tier)[:2] if tier == "quick" else shapes(tier):
                for b in ("same", "other", "narrow", "one", "fit", "reads", "restored", "equal"):
                    out.append(ob(f"{c} diff={d} p={p} rows={T} after {b}", "contract", "refit",
                                  [c, p, T, d, b], two=True, minpairs=8))
                for t in (1, 2):
                    out.append(ob(f"{c} diff={d} p={p} rows={t} after other", "contract", "refit",
                                  [c, p, t, d, "other"], two=True, minpairs=8))
    return out


def c03(tier):
    out = []
    for c in configs(False):
        for d in (False, True):
            for p in (*((3, 1) if tier == "quick" else (3, 1, 2, 4, 5)), *wide()):
                for t in (0, 1, 2, 4, 7) if p == 3 or tier != "quick" else (0, 1, 6):
                    for how in ("json", "direct", "used", "wider", "pending", "alias", "whatif"):
                        if how == "alias" and t < 2 or how == "whatif" and not t:
                            continue
                        out.append(ob(f"{c} diff={d} p={p} saved after {t} rows, {how}", "contract", "saved",
                                      [c, p, t, max(t + 2, 8) if t else 7, d, how], two=True, minpairs=8))
                    out.append(ob(f"{c} diff={d} p={p} saving after {t} rows", "contract", "saving",
                                  [c, p, t, 8, d], two=True, minpairs=8))
    for c in COMPOSITE:
        for t in (0, 1, 4):
            out.append(ob(f"{c} p=2 refuses after {t} rows", "contract", "refusal", [c, 2, t], minpairs=4))
    return out


def c04(tier):
    out = []
    for c in configs():
        for d in diffs(c):
            for p in (*((3, 1) if tier == "quick" else (3, 1, 2, 5)), *wide()):
                for t in (0, 1, 2, 7):
                    for how in ("pickle", "deepcopy", "twice", "isolated", "source"):
                        out.append(ob(f"{c} diff={d} p={p} {how} after {t} rows", "contract", "copied",
                                      [c, p, t, 8, d, how], two=True, minpairs=8))
                    out.append(ob(f"{c} diff={d} p={p} sharing after {t} rows", "contract", "copy_shares",
                                  [c, p, t, d], minpairs=3, minhits=1))
    return out


SETTINGS = {"ShrunkCovariance": [{"delta": 0.7, "target": "identity"}, {"delta": 0.2}],
            "SchurCovariance": [{"gamma": 0.9}, {"interpolation": "geodesic", "gamma": 0.4}, {"n_blocks": 1}],
            "SchurConditionalCovariance": [{"n_blocks": 1}], "SchurLedoitWolfCovariance": [{"n_blocks": 1}],
            "EwaCovariance": [{"r": 0.6}], "DCCCovariance": [{"r": 0.6}, {"vol_r": 0.4}], "TylerCovariance": [{"r": 0.6}],
            "HuberCovariance": [{"r": 0.6, "c": 0.9}], "PartialMomentsCovariance": [{"r": 0.6}],
            "GeodesicEwaCovariance": [{"r": 0.6}], "LedoitWolfCovariance": [{"r": 0.6}], "OASCovariance": [{"r": 0.6}],
            "DiagonalCovariance": [{"r": 0.6}], "AdaptiveEwaCovariance": [{"r": 0.1, "max_r": 0.8}]}


def c05(tier):
    out = []
    for c in configs():
        for d in diffs(c):
            for p, T in shapes(tier):
                for w in ("always", "some", "late"):
                    out.append(ob(f"{c} diff={d} p={p} rows={T} reads {w}", "contract", "reads",
                                  [c, p, T, d, w], two=True, minpairs=8))
                for w in ("fit", "fit twice", "next", "setstate") + (() if c in COMPOSITE else ("state",)) + \
                        (("fit wider",) if p < 4 else ()):
                    out.append(ob(f"{c} diff={d} p={p} rows={T} reads before {w}", "contract", "replaced",
                                  [c, p, T, d, w], two=True, minpairs=8))
                for g in SETTINGS.get(CLASS_OF.get(c, c), ()):
                    out.append(ob(f"{c} diff={d} p={p} rows={T} reads before set_params({g})", "contract",
                                  "reparametrised", [c, p, T, d, g], two=True, minpairs=8))
                out.append(ob(f"{c} diff={d} p={p} rows={T} read twice", "contract", "rereads",
                              [c, p, T, d], minpairs=8))
                out.append(ob(f"{c} diff={d} p={p} rows={T} read order", "contract", "read_order",
                              [c, p, T, d], two=True, minpairs=8, order_free=True))
    return out + keyed_obs("c05", tier)


def c06(tier):
    out = []
    for c in configs():
        for d in diffs(c):
            for p, T in shapes(tier):
                for how in ("buffer", "batch", "fit", "fit-more", "lists", "queries"):
                    out.append(ob(f"{c} diff={d} p={p} rows={T} {how}", "contract", "caller_buffers",
                                  [c, p, T, d, how], two=True, minpairs=8))
                out.append(ob(f"{c} diff={d} p={p} arguments", "contract", "caller_untouched",
                              [c, p, 3, d], minpairs=8))
            out.append(ob(f"{c} diff={d} arguments with missing values", "contract", "caller_missing", [c, 2, d],
                          minpairs=6))
    for n, p in ((5, 3), (4, 1)):
        out.append(m_(f"functions n={n} p={p} arguments", "untouched", [n, p], minpairs=4, minhits=1))
    for p in (3, 2, 1):
        out.append(m_(f"matrix functions p={p} arguments", "untouched_linalg", [p], minpairs=4, minhits=1))
    return out + keyed_obs("c06", tier)


def c07(tier):
    out = []
    for c in configs():
        for d in diffs(c):
            for p, T in shapes(tier):
                out.append(ob(f"{c} diff={d} p={p} rows={T} results ruined", "contract", "returned",
                              [c, p, T, d], two=True, minpairs=8))
            out.append(ob(f"{c} diff={d} results of an unfitted estimator ruined", "contract", "returned_unfitted",
                          [c, 3, d], two=True, minpairs=8))
    out.append(ob("registry lists ruined", "contract", "registry_lists", [], two=True, minpairs=8))
    return out + keyed_obs("c07", tier)


def c08(tier):
    out = []
    for c in configs():
        r = 0.5
        for p, a, b in ((3, 8, 20), (1, 8, 40), (2, 30, 60)) + (((4, 60, 120),) if tier != "quick" else ()):
            out.append(ob(f"{c} p={p} storage after {a} and {b} rows", "contract", "census", [c, p, a, b, r],
                          minpairs=1, minhits=1))
        out.append(ob(f"{c} p=2 work of update 12 and 36", "contract", "work", [c, 2, 12, 36], minpairs=1, minhits=1))
        kind = c if c in CLASS_OF else None
        if kind in ("diagonal", "factor", "factor1"):
            out.append(ob(f"{c} storage linear in the dimension", "contract", "growth", [c, 10, 2, 16, 7, False],
                          minpairs=1, minhits=1))
        elif kind == "block":
            out.append(ob(f"{c} storage linear in the dimension at fixed block size", "contract", "growth",
                          [c, 10, 2, 24, 7, True], minpairs=1, minhits=1))
        else:
            out.append(ob(f"{c} storage quadratic in the dimension", "contract", "growth", [c, 6, 4, 40, 7, False],
                          minpairs=1, minhits=1))
    return out + keyed_obs("c08", tier)


def c09(tier):
    out = []
    for c in configs():
        for d in diffs(c):
            out.append(ob(f"{c} diff={d} p=2 counting", "contract", "counts", [c, 2, 9, d, None], minpairs=10))
            out.append(ob(f"{c} diff={d} p=1 counting past burn-in", "contract", "counts", [c, 1, 45, d, 0.05],
                          minpairs=10))
        if tier != "quick" or c in ("empirical", "ewa", "diagonal", "block", "tyler", "dcc"):
            out.append(ob(f"{c} p=1 counting past the longest burn-in", "contract", "counts",
                          [c, 1, 262, False, 0.001], minpairs=10))
    for c in configs():
        for d in diffs(c):
            for T in sorted({40, *counts(16, 130 if c not in ("empirical", "cond", "diagonal") else 4100)}):
                out.append(ob(f"{c} diff={d} a batch of {T}", "contract", "batch_count", [c, T, d], minpairs=4))
    for c in configs(False):
        for d in diffs(c):
            out.append(ob(f"{c} diff={d} counting on from any number of rows", "contract", "long_count", [c, 2, 4, d],
                          minpairs=3))
    return out


def c10(tier):
    out = []
    for c in configs(False):
        for p, T in shapes(tier):
            for how in ("rows", "fit", "batches", "stale"):
                out.append(ob(f"{c} p={p} rows={T} {how}", "contract", "differences", [c, p, T, how],
                              two=True, minpairs=8))
    for c in ("empirical", "ewa"):
        for T in sorted({40, *counts(8, 2100 if c == "empirical" else 300)}):
            for how in ("fit", "batches"):
                out.append(ob(f"{c} p=1 rows={T} {how}", "contract", "differences", [c, 1, T, how], two=True, minpairs=8))
    return out


def c11(tier):
    out = []
    for c in configs():
        for d in diffs(c):
            for p, w in ((3, 1), (3, 2), (3, 4), (1, 2), (2, 1), (2, 6)):
                for t in (1, 2, 7) if p == 3 else (1, 6):
                    for how in ("row", "list", "batch"):
                        if how == "list" and t != 2:
                            continue
                        out.append(ob(f"{c} diff={d} p={p} width {w} {how} after {t} rows", "contract",
                                      "wrong_width", [c, p, t, d, w, how], two=True, minpairs=8))
                    out.append(ob(f"{c} diff={d} p={p} width {w} refused after {t} rows", "contract",
                                  "width_refused", [c, p, w, d, t], minpairs=2, minhits=1))
                out.append(ob(f"{c} diff={d} fit from width {p} to {w}", "contract", "new_dimension",
                              [c, p, w, d], two=True, minpairs=8))
    return out


def c12(tier):
    out = []
    for c in configs():
        for d in diffs(c):
            for p in (1, 3):
                out.append(ob(f"{c} diff={d} p={p} unfitted", "contract", "unfitted", [c, p, d], minpairs=10,
                              minhits=1))
                if c not in COMPOSITE:
                    out.append(ob(f"{c} diff={d} p={p} restored unfitted", "contract", "unfitted_restored",
                                  [c, p, d], minpairs=10, minhits=1))
                out.append(ob(f"{c} diff={d} p={p} first answer", "contract", "first_answer", [c, p, d],
                              minpairs=2, minhits=1))
    return out + keyed_obs("c12", tier)


R_ = ("sym", "rr", "rate", 0.001, 1.0)
U_ = ("sym", "uu", "unit", 0.0, 1.0)
GIVEN = {
    "EmpiricalCovariance": [{"diff": True}, {"diff": False}],
    "DiagonalCovariance": [{"r": R_, "diff": True}, {"r": R_}],
    "BlockCovariance": [{"r": R_, "n_blocks": 3, "diff": True}, {"r": R_, "n_blocks": 2}, {"n_blocks": 1}],
    "EwaCovariance": [{"r": R_, "diff": True}, {"r": R_}],
    "AdaptiveEwaCovariance": [{"r": R_, "max_r": U_, "diff": True}, {"r": R_, "max_r": U_}, {"max_r": U_}],
    "LedoitWolfCovariance": [{"r": R_, "diff": True}, {"r": R_}],
    "OASCovariance": [{"r": R_, "diff": True}, {"r": R_}],
    "ShrunkCovariance": [{"r": R_, "delta": U_, "target": "identity", "diff": True},
                         {"r": R_, "delta": U_, "target": "constant_correlation"}, {"delta": U_}],
    "SchurCovariance": [{"r": R_, "n_blocks": 2, "gamma": U_, "interpolation": "geodesic", "diff": True},
                        {"r": R_, "n_blocks": 3, "gamma": U_, "interpolation": "linear"}, {"gamma": U_}],
    "SchurConditionalCovariance": [{"r": R_, "n_blocks": 2, "diff": True}, {"r": R_, "n_blocks": 3}],
    "SchurLedoitWolfCovariance": [{"r": R_, "n_blocks": 2, "diff": True}, {"r": R_, "n_blocks": 3}],
    "PartialMomentsCovariance": [{"r": R_, "diff": True}, {"r": R_}],
    "HuberCovariance": [{"r": R_, "c": ("sym", "cc", "pos", 0.01, None), "diff": True},
                        {"r": R_, "c": ("sym", "cc", "pos", 0.01, None)}],
    "TylerCovariance": [{"r": R_, "diff": True}, {"r": R_}],
    "GeodesicEwaCovariance": [{"r": R_, "diff": True}, {"r": R_}],
    "DCCCovariance": [{"r": R_, "vol_r": ("sym", "vv", "rate", 0.001, 1.0), "diff": True},
                      {"r": R_, "vol_r": None}, {"r": R_, "vol_r": ("sym", "vv", "rate", 0.001, 1.0)}],
    "FactorCovariance": [{"k": 3, "r": R_, "diff": True}, {"k": 1, "r": R_}],
}


def c13(tier):
    out = []
    for n in [n for n in GIVEN]:
        out.append(ob(f"{n} parameter names", "contract", "hyper_names", [n], minpairs=2, minhits=1))
        for i, g in enumerate(GIVEN[n]):
            for p in (*((3, 2) if tier == "quick" else (3, 2, 1, 5)), *wide()):
                out.append(ob(f"{n} {i} p={p} stored", "contract", "hyper", [n, g, p, 7], minpairs=3))
                out.append(ob(f"{n} {i} p={p} set", "contract", "hyper_set", [n, g, p, 8], two=True, minpairs=8))
                for tr in (False, True):
                    out.append(ob(f"{n} {i} p={p} rebuilt trained={tr}", "contract", "hyper_rebuild",
                                  [n, g, p, 8, tr], two=True, minpairs=8))
    for n in registered():
        if n not in GIVEN:
            out.append(ob(f"{n} parameter names", "contract", "hyper_names", [n], minpairs=2, minhits=1))
    for c in configs():
        for d in diffs(c):
            out.append(ob(f"{c} diff={d} rebuilt", "contract", "rebuild_config", [c, 3, 8, d, True], two=True,
                          minpairs=8))
    return out


def c14(tier):
    out = []
    cs = configs()
    for i, c in enumerate(cs):
        for d in diffs(c):
            others = [c, "ewa" if c != "ewa" else "empirical"] if tier == "quick" else cs
            for o in others:
                if d and o in COMPOSITE:
                    continue
                out.append(ob(f"{c} diff={d} beside {o}", "contract", "bystander", [c, o, 3, 7, d], two=True,
                              minpairs=8, events=True))
        if c not in COMPOSITE:
            for k in ("fixed", "dynamic", "vol", "corr"):
                out.append(ob(f"{c} prototype for {k}", "contract", "prototype", [c, 2, 7, k], minpairs=5,
                              minhits=1, events=True))
                out.append(ob(f"{c} prototype shared by {k}", "contract", "shared_prototype", [c, 2, 7, k],
                              two=True, minpairs=2, events=True))
        else:
            for k in ("fixed", "dynamic"):
                out.append(ob(f"{c} prototype for {k}", "contract", "prototype", [c, 2, 7, k], minpairs=5,
                              minhits=1, events=True))
    return out + keyed_obs("c14", tier)


KEYED_CFGS = ["ewa", "empirical", "block", "tyler", "huber", "partial", "schur", "factor", "dcc", "cond"]


def keyed_cfgs(tier):
    return KEYED_CFGS[:4] + ["cond"] if tier == "quick" else [c for c in configs() if c not in ("cond-default",)]


def k_(oid, fn, args, **kw):
    return ob(oid, "keyeds", fn, args, **kw)


def keyed_obs(prop, tier):
    out = []
    for c in keyed_cfgs(tier):
        for dyn in (False, True):
            n = f"keyed {c} dynamic={dyn}"
            if prop == "c05":
                out.append(k_(f"{n} reads always", "k_reads", [c, dyn, "always"], two=True, minpairs=5))
                out.append(k_(f"{n} reads some", "k_reads", [c, dyn, "some"], two=True, minpairs=5))
                if dyn and c in ("ewa", "block", "cond"):
                    for lim, st in ((2, 1), (3, 2), (10, 2), (10, 4), (4, 6)):
                        for w in ("always", "some"):
                            for i in range(1 if tier == "quick" else 6):
                                out.append(k_(f"{n} reads {w} limit={lim} staleness={st} [{i}]", "k_reads_histories",
                                              [c if c != "ewa" else "ewa3", lim, st,
                                               walks(4, 10, "abcd", 31 * i + lim + st), w], two=True, minpairs=20))
                out.append(k_(f"{n} read twice", "k_rereads", [c, dyn], minpairs=5))
            elif prop == "c06":
                for how in ("buffer", "last", "scribble", "query") + (() if dyn else ("keys",)):
                    out.append(k_(f"{n} {how}", "k_buffers", [c, dyn, how], two=True, minpairs=5))
                out.append(k_(f"{n} arguments", "k_arguments", [c, dyn], minpairs=5))
            elif prop == "c07":
                out.append(k_(f"{n} results ruined", "k_returned", [c, dyn], two=True, minpairs=5))
            elif prop == "c08":
                out.append(k_(f"{n} storage", "k_size", [c, dyn, 25, 50, 3], minpairs=1, minhits=1))
                if dyn and c not in ("cond",):
                    out.append(k_(f"{n} storage with new names", "k_new_names", [c, 3, 20, 40], minpairs=1, minhits=1))
                    out.append(k_(f"{n} storage with new names, stale first", "k_new_names", [c, 100, 20, 40, 2],
                                  minpairs=1, minhits=1))
            elif prop == "c12":
                out.append(k_(f"{n} has seen nothing", "k_unseen", [c, dyn], minpairs=8, minhits=1))
            elif prop == "c14":
                out.append(k_(f"{n} beside others", "k_beside", [c, dyn], two=True, minpairs=5, events=True))
                out.append(k_(f"{n} prototype", "k_prototype", [c, dyn], minpairs=2, minhits=1, events=True))
            elif prop == "c16" and dyn:
                out.append(k_(f"{n} queries valid", "k_valid",
                              [c, dyn, ["abc", "ab", "bcd", "abc", "da", "cd"], ["abc", "abcd", "dz"]], minpairs=5))
    return out


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08,
          "C09": c09, "C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14}


# ------------------------------------------------------------------ what each estimator computes
def n_(oid, fn, args, **kw):
    return ob(oid, "numeric", fn, args, **kw)


def c16(tier):
    out = []
    for c in configs():
        for d in diffs(c):
            for p, T in [(3, 8), (2, 7), (1, 7), (5, 8)] + ([(4, 9), (5, 9)] if tier != "quick" else []) + [(p, 7) for p in wide()]:
                out.append(n_(f"{c} diff={d} p={p} rows={T} valid", "valid",
                              [c, p, T, d, [1, 2, 3, 5, T - 1, T]], minpairs=3))
            for p in (2, 4):
                out.append(n_(f"{c} diff={d} p={p} rows=7 one column constant", "valid",
                              [c, p, 7, d, [1, 2, 3, 6, 7], True], minpairs=3))
            out.append(n_(f"{c} diff={d} p=4 rows=8 symmetric", "bitwise_symmetric", [c, 4, 8, d], minpairs=1))
    for w in ("make_pos_def", "nearest_pos_def"):
        for p in (1, 2, 3, 4, 6, *wide()):
            out.append(n_(f"{w} p={p}", "projections", [p, w], minpairs=3, K=96))
    return out + keyed_obs("c16", tier)


def c17(tier):
    out = []
    for c in configs():
        for d in diffs(c):
            for p, T in [(3, 9), (1, 7), (2, 8), (5, 8)] + ([(4, 10), (5, 11)] if tier != "quick" else []) + [(p, 7) for p in wide()]:
                for sc in (1.0, 1e-7, 1e6) if not d else (1.0,):
                    if sc != 1.0 and c in ("cond", "cond-huber", "cond-skater", "cond-default"):
                        continue
                    out.append(n_(f"{c} diff={d} p={p} rows={T} scale={sc}", "derived_ok", [c, p, T, d, sc],
                                  minpairs=8, modes=(0, 1, 2) if sc == 1.0 else (0,)))
            for how in ("next row", "fitted", "restored", "undone", "copied"):
                if c not in COMPOSITE or how not in ("restored", "undone"):
                    out.append(n_(f"{c} diff={d} read before, then {how}", "derived_again", [c, 2, 8, d, how], minpairs=8))
        out.append(n_(f"{c} constant variable", "constant_column", [c, 3, 8], minpairs=3))
    for n in sorted({17, *counts(4, 2100)}):
        out.append(n_(f"{n} rows scored at once", "scored", ["ewa", 1, 7, n], minpairs=3))
    return out


def c18(tier):
    out = []
    for p in (1, 2, 3, 4, 6, *wide()):
        out.append(n_(f"p={p} after each of 9 rows", "empirical", [p, 9, list(range(1, 10)), []], minpairs=10))
        out.append(n_(f"p={p} permuted", "empirical", [p, 8, [1, 2, 5, 8], [5, 2, 7, 0, 1, 6, 3, 4]], minpairs=8))
        for h in ("reversed", "rotated", "batches"):
            out.append(n_(f"p={p} {h}", "empirical_order", [p, 8, h], two=True, minpairs=4))
    out.append(n_("p=1 long", "empirical", [1, 300, [50, 99, 100, 101, 128, 200, 250, 251, 255, 256, 257, 300], []],
                  minpairs=10))
    if tier != "quick":
        out.append(n_("p=1 very long", "empirical", [1, 1100, [500, 501, 512, 513, 999, 1000, 1001, 1024, 1025, 1100],
                                                      []], minpairs=10))
    for p, T in ((1, 3), (2, 4), (3, 5)):
        out.append(ob(f"p={p} going on from any number of rows", "contract", "long_mean", [p, T], minpairs=9, K=96))
    return out


def c19(tier):
    out = []
    for p, T in ((1, 12), (2, 9), (3, 9), (6, 8)) + (((4, 10),) if tier != "quick" else ()) + tuple((p, 8) for p in wide()):
        out.append(n_(f"EwaCovariance p={p} any rate", "ewa", [p, T, list(range(1, T + 1)), None], minpairs=10, K=96))
    for r, T in ((1.0, 9), (0.5, 9), (0.2, 9), (0.15, 11), (0.11, 13), (0.05, 24), (0.04, 28), (0.03, 37),
                 (0.004, 254), (0.001, 254)):
        ms = sorted({1, 2, 4, 5, 6, 7, T - 3, T - 2, T - 1, T})
        out.append(n_(f"EwaCovariance p=1 r={r} rows={T}", "ewa", [1, T, ms, r], minpairs=10))
    for c in ("diagonal", "block", "block1", "ledoitwolf", "oas", "shrunk", "shrunk-id", "schur", "schur-geo",
              "schurcond", "schurlw", "partial", "tyler", "geodesic", "ewa"):
        for p, T in ((1, 10), (3, 8)):
            out.append(n_(f"{c} location p={p} any rate", "locations", [c, p, T, None], minpairs=1, K=96))
        out.append(n_(f"{c} location r=0.05", "locations", [c, 1, 25, 0.05], minpairs=1))
        if tier != "quick":
            out.append(n_(f"{c} location r=0.004", "locations", [c, 1, 254, 0.004], minpairs=1))
            out.append(n_(f"{c} location r=0.001", "locations", [c, 1, 254, 0.001], minpairs=1))
    for c in configs(False):
        if c != "empirical":
            for d in diffs(c):
                for r, T in ((0.25, 8), (0.12, 17 if c == "schurcond" else 11)):
                    out.append(ob(f"{c} diff={d} r={r} however long the stream", "contract", "long_run",
                                  [c, 2, T, d, r], two=True, minpairs=9))
    return out


def PT(tier):
    return [(3, 8), (2, 9), (1, 8), (4, 8), (6, 8)] + ([(5, 9), (6, 9), (3, 12), (2, 14)] if tier != "quick" else []) + [
        (p, 7) for p in wide()]


def c20(tier):
    out = []
    for kind, tg in (("ledoitwolf", None), ("oas", None), ("shrunk", "constant_correlation"), ("shrunk", "identity")):
        for p, T in PT(tier):
            out.append(n_(f"{kind} {tg or ''} p={p} rows={T}", "shrinkage", [kind, p, T, None, tg], minpairs=3, K=96))
        for t in (1, 2, 4, 5, 6):
            out.append(n_(f"{kind} {tg or ''} p=3 rows={t}", "shrinkage", [kind, 3, t, None, tg], minpairs=3))
        out.append(n_(f"{kind} {tg or ''} p=2 r=0.05", "shrinkage", [kind, 2, 26, 0.05, tg], minpairs=3))
        if kind != "shrunk":
            for p in (2, 3, 4):
                out.append(n_(f"{kind} p={p} one factor", "shrink_intensity", [kind, p, 8, None], minpairs=2, K=96))
    return out


def c21(tier):
    out = []
    for p, T in PT(tier):
        for nb in (1, 2, 3, 4):
            if nb > p + 1:
                continue
            out.append(n_(f"SchurCovariance p={p} rows={T} blocks={nb}", "schur", [p, T, nb, None, None], minpairs=2))
            for g in (0.0, 1.0):
                out.append(n_(f"SchurCovariance p={p} rows={T} blocks={nb} gamma={g}", "schur", [p, T, nb, None, g],
                              minpairs=2))
            out.append(n_(f"SchurLedoitWolf p={p} rows={T} blocks={nb}", "schur_lw", [p, T, nb, None], minpairs=2,
                          K=96))
            out.append(n_(f"SchurConditional p={p} rows={T} blocks={nb}", "schur_cond", [p, T, nb, None], minpairs=2,
                          K=96))
            for g in (None, 0.0, 1.0):
                out.append(n_(f"SchurCovariance geodesic p={p} rows={T} blocks={nb} gamma={g}", "schur_geodesic",
                              [p, T, nb, None, g], minpairs=2))
    for nb in (2, 3):
        for r, T in ((0.05, 24), (0.2, 9)):
            out.append(n_(f"SchurConditional p=4 r={r} rows={T} blocks={nb}", "schur_cond", [4, T, nb, r], minpairs=2))
            out.append(n_(f"SchurLedoitWolf p=4 r={r} rows={T} blocks={nb}", "schur_lw", [4, T, nb, r], minpairs=2))
    return out


def c22(tier):
    out = []
    for p, T in PT(tier):
        out.append(n_(f"DiagonalCovariance p={p} rows={T}", "diagonal", [p, T, None], minpairs=3))
        for nb in (1, 2, 3, 4, 7):
            out.append(n_(f"BlockCovariance p={p} rows={T} blocks={nb}", "block", [p, T, nb, None], minpairs=4))
    out.append(n_("DiagonalCovariance p=2 r=0.05", "diagonal", [2, 25, 0.05], minpairs=3))
    out.append(n_("BlockCovariance p=3 r=0.05", "block", [3, 25, 2, 0.05], minpairs=3))
    out.append(n_("BlockCovariance p=7 blocks=3", "block", [7, 7, 3, 0.5], minpairs=3))
    return out


def c23(tier):
    out = []
    for p, T in PT(tier):
        out.append(n_(f"p={p} rows={T}", "huber", [p, T, None, None], minpairs=2, modes=(0, 1, 2), K=96))
        out.append(n_(f"p={p} rows={T} default cutoff", "huber", [p, T, None, 2.5], minpairs=2, K=96))
    for p in (1, 2, 3):
        out.append(n_(f"p={p} bounded influence", "huber_bound", [p, 8, 0.3], minpairs=2, K=96))
    out.append(n_("p=1 r=0.05", "huber", [1, 26, 0.05, 1.0], minpairs=2))
    return out


def c24(tier):
    out = []
    for p, T in PT(tier):
        out.append(n_(f"p={p} rows={T}", "adaptive", [p, T, None, None], minpairs=2, modes=(0, 1, 2), K=96))
        out.append(n_(f"p={p} rows={T} default maximum", "adaptive", [p, T, None, 0.5], minpairs=2, K=96))
    out.append(n_("p=1 r=0.05", "adaptive", [1, 27, 0.05, 0.4], minpairs=2))
    out.append(n_("p=2 r=0.2", "adaptive", [2, 14, 0.2, 0.5], minpairs=2))
    return out


def c25(tier):
    out = []
    for p, T in PT(tier):
        for own in (False, True):
            out.append(n_(f"dcc p={p} rows={T} own vol_r={own}", "dcc", [p, T, None, own], minpairs=3, K=96))
        for k in ("dcc", "cond"):
            out.append(n_(f"{k} p={p} rows={T} series alone", "series_alone", [k, p, T, None], minpairs=1))
    for p in (1, 2, 4):
        for k in ("dcc", "cond"):
            out.append(n_(f"{k} p={p} a series on its mean", "still", [k, p, 7], minpairs=3))
    for p, T in ((1, 8), (2, 8), (3, 8)):
        for k in ("ewa", "huber", "empirical", "default", "skater", "counting skater", "history skater", "flat skater"):
            out.append(n_(f"composite {k} p={p} rows={T}", "composite", [p, T, k], minpairs=8))
    return out


def c26(tier):
    out = []
    for p, T in PT(tier):
        for k in (1, 2, 3, 5):
            if k <= p + 1:
                out.append(n_(f"p={p} rows={T} k={k}", "factor", [p, T, k, None], minpairs=3))
    for t in (1, 2, 3, 4):
        out.append(n_(f"p=3 rows={t} k=2", "factor", [3, t, 2, None], minpairs=3))
    return out


def c27(tier):
    out = []
    for p in (1, 2, 3, 4, 6, *wide()):
        for g in (None, 0.0, 1.0, 0.5):
            out.append(n_(f"geodesic_step p={p} t={g}", "geodesic_function", [p, g], minpairs=4))
            if g in (None, 0.5):
                out.append(n_(f"geodesic_step far apart p={p} t={g}", "geodesic_far", [p, g], minpairs=4))
    for p, T in PT(tier):
        out.append(n_(f"GeodesicEwaCovariance p={p} rows={T}", "geodesic_ewa", [p, T, None], minpairs=2))
    return out


def c28(tier):
    out = []
    for p, T in PT(tier):
        out.append(n_(f"p={p} rows={T}", "partial", [p, T, None], minpairs=2, K=96))
        out.append(n_(f"p={p} rows={T} quadrants", "partial_state", [p, T, None], minpairs=4))
    out.append(n_("p=2 r=0.05", "partial", [2, 25, 0.05], minpairs=2))
    return out


def c29(tier):
    out = []
    for p, T in PT(tier):
        out.append(n_(f"p={p} rows={T}", "tyler", [p, T, None], minpairs=2, modes=(0, 1, 2), K=96))
    for p in (1, 2, 3):
        for w in ([0], [1], [0, 1], [3], [7], [0, 1, 2, 3, 4, 5, 6, 7]):
            out.append(n_(f"p={p} zero deviation at {w}", "tyler_zero", [p, 8, 0.3, w], minpairs=8))
        out.append(n_(f"p={p} stretch", "tyler_scale", [p, 7, 0.3], minpairs=1))
    return out


CHECKS.update({"C16": c16, "C17": c17, "C18": c18, "C19": c19, "C20": c20, "C21": c21, "C22": c22, "C23": c23,
               "C24": c24, "C25": c25, "C26": c26, "C27": c27, "C28": c28, "C29": c29})


# ------------------------------------------------------------------ keyed adapters
FIXED_HIST = [["abc", "bca", "cab", "cba", "abc"], ["abc", "ab", "c", "b", "bca", "ac"],
              ["ba", "abz", "z", "az", "b", "ab"], ["cab", "", "a", "xc", "", "bac"],
              ["abc", "bc", "bc", "c", "a", "abc"]]


def c30(tier):
    out = []
    for impute in ("ffill", "mean", "zero"):
        for hi, h in enumerate(FIXED_HIST):
            for keys in (None, "bca", "dab"):
                own = keys or h[0]
                qs = [own, own[::-1], own[1:], own[-1] + own[0]]
                if keys is None and hi == 3 and impute == "mean":
                    pass
                out.append(k_(f"ewa impute={impute} names={keys} history={'-'.join(h)}", "fixed",
                              ["ewa", False, keys, impute, h, qs], minpairs=5))
        for c in ("empirical", "block", "tyler", "cond", "dcc", "huber") if tier == "quick" else configs():
            if c == "cond-default":
                continue
            out.append(k_(f"{c} impute={impute}", "fixed", [c, False, None, impute, FIXED_HIST[1],
                                                             ["abc", "cb", "ba"]], minpairs=5))
    out.append(k_("ewa of differences, forward filled", "fixed", ["ewa", True, None, "ffill", FIXED_HIST[1],
                                                                  ["abc", "cb"]], minpairs=5))
    out.append(k_("defaults", "imputation_default", [], minpairs=2))
    out.append(k_("unknown name", "fixed_unknown", ["ewa"], minpairs=2, minhits=1))
    return out + many_names("c30")


def subsets(names):
    out = []
    for m in range(1, 1 << len(names)):
        out.append("".join(n for i, n in enumerate(names) if m >> i & 1))
    return out


def histories(names, T):
    import itertools
    return [list(h) for h in itertools.product(subsets(names), repeat=T)]


def walks(n, T, names, seed):
    """A fixed sample of longer histories, with runs of repeated key-sets."""
    import random
    r = random.Random(seed)
    sub = subsets(names)
    out = []
    for _ in range(n):
        pool = r.sample(sub, min(len(sub), r.choice((2, 3, 4, 5))))
        h = []
        while len(h) < T:
            s = r.choice(pool)
            k = "".join(r.sample(s, len(s)))
            h += [k] * r.choice((1, 1, 1, 2, 3))
        out.append(h[:T])
    return out


LIMITS = [(1, 2), (2, 0), (2, 1), (2, 3), (3, 1), (3, 50), (10, 0), (10, 1), (10, 2), (10, 50)]


def dyn_obs(prop, tier):
    out = []
    every = prop == "c31"
    deep = tier != "quick"
    for lim, st in LIMITS:
        for T, names in ((2, "abc"), (3, "ab")) + (((3, "abc"),) if deep or (lim, st) == (2, 1) else ()):
            hs = histories(names, T)
            for i in range(0, len(hs), 25):
                out.append(k_(f"ewa3 limit={lim} staleness={st} every history of {T} over {names} [{i}]", "many",
                              ["ewa3", lim, st, hs[i:i + 25], names, every and T == 2], minpairs=10, K=24))
        for i in range(12 if deep else 3):
            hs = walks(8, 12 if deep else 9, "abcd", 1000 * i + lim * 10 + st)
            out.append(k_(f"ewa3 limit={lim} staleness={st} long histories [{i}]", "many",
                          ["ewa3", lim, st, hs, "abc" if i % 2 else "dcba", every and deep], minpairs=10, K=24))
    return out


def c31(tier):
    out = dyn_obs("c31", tier)
    for c in keyed_cfgs(tier):
        for d in diffs(c):
            for i, h in enumerate(walks(2 if tier == "quick" else 6, 8, "abc", 7)):
                out.append(k_(f"{c} diff={d} history {i}", "dynamic", [c, d, 3, 2, h, "abc", True], minpairs=2))
    out.append(k_("defaults", "dynamic_default", [], two=True, minpairs=20))
    for lim in (1, 2, 3, 5):
        for i, h in enumerate(walks(3, 14, "abcd", 99)):
            out.append(k_(f"limit {lim} after every observation [{i}]", "bounded", ["ewa3", lim, h], minpairs=10,
                          minhits=1))
    return out + many_names("c31")


def letters(n, first="a"):
    return "".join(chr(ord(first) + i) for i in range(n))


def many_names(prop):
    """Universes of many names, many universes at once, and long histories (just past the numbers the package names)."""
    out = []
    for n in sorted({7, 13, *counts(6, 40)}):
        a = letters(n)
        h = [a, a, a[: n // 2], a[::-1], a[n // 3:], a[: n // 2][::-1]]
        if prop == "c30":
            for imp in ("ffill", "mean", "zero"):
                out.append(k_(f"{n} names impute={imp}", "fixed", ["ewa3", False, None, imp, h, [a[::-1], a[1:4]]],
                              minpairs=10))
            continue
        out.append(k_(f"{n} names", "dynamic", ["ewa3", False, 10, 50, h, a if n <= 7 else a[-3:] + a[:1], prop == "c31"],
                      minpairs=4))
        out.append(k_(f"{n} names at once", "together", ["ewa3", 10, 50, h, [a, a[::-1], a[: n // 2]]], minpairs=3))
    for c in sorted({13, *counts(6, 60)}):
        if prop == "c30":
            out.append(k_(f"{c + 2} observations", "fixed", ["ewa3", False, None, "mean", ["abc", *walks(1, c + 1, "abc", c)[0]],
                                                              ["abc"]], minpairs=10))
            continue
        h = ["a" + chr(ord("b") + i) for i in range(c + 3)]
        out.append(k_(f"up to {c + 1} universes", "dynamic", ["ewa3", False, c + 1, 500, h + ["ab"], "abc", False],
                      minpairs=10))
        h = [["ab", "ac", "bc", "abc", "ad"][(i * i + i // 3) % 5] for i in range(2 * c + 6)]
        for st in (1, 2):
            out.append(k_(f"{len(h)} observations, staleness {st}", "dynamic", ["ewa3", False, 60, st, h, "abcd", False],
                          minpairs=10))
    return out


def c32(tier):
    out = dyn_obs("c32", tier)
    for c in keyed_cfgs(tier):
        for d in diffs(c):
            for i, h in enumerate(walks(3 if tier == "quick" else 8, 7, "abcd", 17)):
                for q in ("abcd", "dbca", "zab", "c"):
                    out.append(k_(f"{c} diff={d} history {i} names {q}", "dynamic", [c, d, 10, 50, h, q, False],
                                  minpairs=2))
    return out + many_names("c32")


def c33(tier):
    out = []
    hs = [["abc", "bca", "abc", "ab", "cab", "ba"], ["cba", "ab", "abc", "c", "ba", "cb"]]
    for c in keyed_cfgs(tier):
        for dyn in (False, True):
            for i, h in enumerate(hs):
                for how in ("reversed", "sorted", "rotated"):
                    out.append(k_(f"{c} dynamic={dyn} {how} keys {i}", "orders", [c, dyn, h, how, ["abc", "ca"]],
                                  two=True, minpairs=4))
                out.append(k_(f"{c} dynamic={dyn} views {i}", "views", [c, dyn, h], minpairs=15))
                for how in ("update", "many", "mixed"):
                    out.append(k_(f"{c} dynamic={dyn} {how} {i}", "verbs", [c, dyn, h, how], two=True, minpairs=3))
    for dyn in (False, True):
        for i, h in enumerate(hs):
            for how in ("reversed", "sorted", "rotated"):
                out.append(k_(f"ewa dynamic={dyn} all {how} {i}", "first_order", [dyn, h, how, ["abc", "ca"]],
                              two=True, minpairs=2))
    for w in ("fixed", "fixed options", "zero", "fixed class", "fixed default", "dynamic", "dynamic options",
              "dynamic class", "dynamic default"):
        out.append(k_(f"keyed() {w}", "front_door", [w], two=True, minpairs=8))
    out.append(k_("keyed() with an instance and its arguments", "instance_and_kwargs", [], minpairs=2, minhits=1))
    return out


CHECKS.update({"C30": c30, "C31": c31, "C32": c32, "C33": c33})


# ------------------------------------------------------------------ the rest of the package
def m_(oid, fn, args, **kw):
    return ob(oid, "misc", fn, args, **kw)


def c15(tier):
    out = []
    for c in configs():
        for d in diffs(c):
            for p, T in ((3, 8), (2, 3), (1, 7)) + (((4, 9), (5, 11)) if tier != "quick" else ()):
                out.append(m_(f"{c} diff={d} p={p} rows={T}", "repeatable", [c, p, T, d], two=True, oracle=True,
                              minpairs=8))
    for c in keyed_cfgs(tier):
        for dyn in (False, True):
            for i, h in enumerate((["abc", "bca", "ab", "c", "cab", "bc"], ["ab", "bcd", "dca", "abcd", "cb", "ad"])):
                out.append(m_(f"keyed {c} dynamic={dyn} history {i}", "repeatable_keyed", [c, dyn, h], two=True,
                              oracle=True, minpairs=5))
    for n, p in ((5, 2), (4, 3), (3, 1), (1, 2)):
        out.append(m_(f"recommender and assessors n={n} p={p}", "repeatable_rest", [n, p], two=True, oracle=True,
                      minpairs=8))
    return out


def c35(tier):
    return [m_("estimator registry", "registry", [], minpairs=100, minhits=1),
            m_("assessor registry", "assessors", [], minpairs=30, minhits=1),
            m_("exported names", "exports", [], minpairs=60, minhits=1)]


def c36(tier):
    return [m_("shipped tree", "tree", [], minpairs=60, minhits=1),
            m_("walk for any features", "walk_any", [], minpairs=1, K=512, rounds=1 if tier == "quick" else 8)]


def c37(tier):
    out = [m_(f"ranking at the {k} of every leaf", "suggestions", [k], minpairs=20, minhits=1)
           for k in ("middle", "upper", "lower")]
    out += [m_("how many", "tops", [], minpairs=20, minhits=1),
            m_("no model shipped", "without_model", [], minpairs=8, minhits=1),
            m_("walk for any features", "walk_any", [], minpairs=1, K=512)]
    for n, p in ((5, 2), (6, 3), (3, 3), (2, 4), (4, 1), (1, 2), (1, 1), (9, 2), (8, 7),
                 *((5, p) for p in wide()), *((n, 2) for n in counts(7, 10100))):
        for k in ("array", "list", "constant") + (("vector",) if n == 1 else ()):
            out.append(m_(f"features n={n} p={p} {k}", "features", [n, p, k], minpairs=8))
    return out


ASSESSORS = {"LogLikelihood": (1, True, False), "BlockPseudoLikelihood": (3, True, False),
             "SchurLikelihood": (5, True, False), "SteinLoss": (1, True, False), "FrobeniusToTruth": (1, False, True),
             "GMVVariance": (1, True, False), "VariogramScore": (1, True, False)}


def c38(tier):
    out = [m_("declared needs", "flags", [], minpairs=30)]
    for n, (k, data, truth) in ASSESSORS.items():
        for i in range(k):
            t = f"{n} #{i}"
            if not data:
                out.append(m_(f"{t} ignores the data", "dependence", [n, i, "data"], two=True, minpairs=1))
                out.append(m_(f"{t} needs no data", "dependence", [n, i, "no data"], two=True, minpairs=1))
            if not truth:
                out.append(m_(f"{t} ignores the truth", "dependence", [n, i, "truth"], two=True, minpairs=1))
                out.append(m_(f"{t} needs no truth", "dependence", [n, i, "no truth"], two=True, minpairs=1))
            out.append(m_(f"{t} used before", "dependence", [n, i, "reuse"], two=True, minpairs=1))
            out.append(m_(f"{t} after the others", "dependence", [n, i, "others"], two=True, minpairs=1))
            out.append(m_(f"{t} arguments", "arguments", [n, i], minpairs=5))
            out.append(m_(f"{t} reacts", "reacts", [n, i, data, truth], minpairs=2, minhits=12))
    return out


def c39(tier):
    out = []
    shapes_ = [(1, 3), (2, 4), (3, 5), (4, 3)] + ([(5, 4), (6, 7), (11, 3)] if tier != "quick" else [])
    shapes_ += [(p, 3) for p in wide()] + [(2, n) for n in counts(6, 64)]
    for p, n in shapes_:
        t = f"p={p} n={n}"
        out.append(m_(f"LogLikelihood {t}", "loglik", [p, n], minpairs=2))
        for s in sorted({1, 2, 3, p, 10}):
            out.append(m_(f"BlockPseudoLikelihood {t} block_size={s}", "block_lik", [p, n, s], minpairs=1))
        for nb in (1, 2, 3, 4):
            for g in (None, 0.0, 0.5, 1.0):
                for ip in ("linear", "geodesic"):
                    out.append(m_(f"SchurLikelihood {t} n_blocks={nb} gamma={g} {ip}", "schur_lik",
                                  [p, n, nb, g, ip], minpairs=1))
        if n > p:
            out.append(m_(f"SteinLoss {t}", "stein", [p, n], minpairs=1))
        out.append(m_(f"FrobeniusToTruth p={p}", "frobenius", [p], minpairs=2))
        out.append(m_(f"GMVVariance {t}", "gmv", [p, n], minpairs=1))
        out.append(m_(f"VariogramScore {t}", "variogram", [p, n], minpairs=1))
    for n in counts(65, 2100):
        for oid, fn, a in (("LogLikelihood", "loglik", [2, n]), ("BlockPseudoLikelihood", "block_lik", [2, n, 1]),
                           ("SchurLikelihood", "schur_lik", [2, n, 2, 0.5, "linear"]), ("SteinLoss", "stein", [2, n]),
                           ("GMVVariance", "gmv", [2, n]), ("VariogramScore", "variogram", [2, n])):
            out.append(m_(f"{oid} p=2 n={n}", fn, a, minpairs=1))
    if tier == "quick":
        out.append(m_("BlockPseudoLikelihood default p=12", "block_lik", [12, 2, 10], minpairs=2, K=24))
    return out


CHECKS.update({"C15": c15, "C35": c35, "C36": c36, "C37": c37, "C38": c38, "C39": c39})


# ------------------------------------------------------------------ rules over the syntax tree
def rule(oid, found, seen, unit="constructs"):
    """The result of a syntax-tree rule as one obligation."""
    return dict(id=oid, result={
        "id": oid, "status": "violation" if found else "ok", "pairs": seen, "identical": seen - len(found), "evaluated": 0,
        "skipped": 0, "why": found[0][1] if found else None, "label": found[0][0] if found else "",
        "found": [(c, f"{c}: {w}") for c, w in found], "functions": [], "unit": unit})


def import_events():
    """What interpreting the import of every module does to the outside."""
    s = H.Session(bare=True)
    found = []
    try:
        s.load("misc")
    except H.Broken:
        return [], 0
    except H.Undecided:
        pass
    n = 0
    for e in s.it.events:
        n += 1
        if e[0] in ("global-config", "print") and H.in_library(s.it, e[2]):
            found.append((f"{H.place(s.it, e[2])}: {e[0]} {e[1]}", "acts outside the package when it is imported"))
    return found, n + len(s.it.mods)


def c40(tier):
    srcs = lint.package()
    out = [m_("every module", "every_module", [], minpairs=25, minhits=1, bare=True),
           m_("recommender and assessors", "core_rest", [], minpairs=8, minhits=1, bare=True),
           m_("optional features", "optional", [], minpairs=6, minhits=1, bare=True)]
    out += [m_("every module, optional packages unloadable", "every_module", [], minpairs=25, minhits=1, bare="unloadable"),
            m_("optional features, packages unloadable", "optional", [], minpairs=6, minhits=1, bare="unloadable")]
    out += [m_(f"using {c}", "core", [c], minpairs=8, minhits=1, bare=True) for c in configs()]
    out += [rule("optional imports are guarded", *lint.optional_imports(srcs), "imports"),
            rule("calls made while importing", *lint.import_effects(srcs), "calls"),
            rule("effects of importing", *import_events(), "events and modules")]
    return out


def c41(tier):
    srcs = lint.package()
    names = [s.rel[:-3].replace(os.sep, ".") for s in srcs if s.rel.startswith(os.path.join("precise", "skaters"))]
    names = [n[:-9] if n.endswith(".__init__") else n for n in names]
    if "precise.skaters" not in names:
        names.append("precise.skaters")
    for n in ("covariance", "covariance.ewapm", "covariance.allcovskaters", "portfoliostatic", "portfoliostatic.hrpport",
              "managers", "managerutil.managertesting", "locationutil", "portfolioutil", "covarianceutil", "whatever", "a.b.c"):
        names.append("precise.skaters." + n)
    out = [m_(n, "removed", [n], minpairs=4, minhits=1) for n in dict.fromkeys(names)]
    out.append(m_("importing names from it", "removed_from", [], minpairs=3, minhits=1))
    out.append(rule("nothing imports it", *lint.no_import_of(srcs, "precise.skaters", os.path.join("precise", "skaters")),
                    "imports"))
    return out


def c42(tier):
    wrong = lint.selftest()
    if wrong:
        raise H.Broken(f"version rules: {wrong}")
    py, npv = lint.floors()
    out = []
    for rel, found, seen in lint.versions(lint.package(), py, npv):
        out.append(rule(f"{rel} on Python {py[0]}.{py[1]} and numpy {npv[0]}.{npv[1]}", found, max(seen, 1),
                        "names, calls and imports"))
    t = lint.typeshed(H.REPO, py)
    if t is not None:
        n, errs = t
        out.append(rule("library stubs of the type checker", [(f"{f}:{ln}", m) for f, ln, m in errs], n, "files"))
    return out


CHECKS.update({"C40": c40, "C41": c41, "C42": c42})


# ------------------------------------------------------------------ the research studies
def s_(oid, fn, args, **kw):
    return ob(oid, "studies", fn, args, **kw)


def c43(tier):
    out = []
    for heavy in (False, True):
        for rec in (False, True):
            for ch in ("test", "train"):
                out.append(s_(f"trial heavy={heavy} own recommender={rec}, other {ch} rows", "trial", [heavy, rec, ch],
                              two=True, minpairs=4))
    for study in ("fixed", "trained"):
        for held in ("one", "two", "three"):
            out.append(s_(f"leave-one-out {study}: another family {held}", "held_out", [study, held], two=True, minpairs=2))
    for where in ("trainer", "oos"):
        for ch in ("test", "train"):
            out.append(s_(f"tree training in {where}, other {ch} rows", "tree_training", [where, ch], two=True, minpairs=5))
    for train, test, step, T in ((3, 2, 2, 9), (4, 2, 1, 9), (3, 1, 3, 10), (3, 2, 2, 5)):
        for cut in range(train, T, 1 if tier != "quick" else 2):
            out.append(s_(f"rolling train={train} test={test} step={step} rows={T}, other rows from {cut}", "rolling",
                          [train, test, step, T, cut], two=True, minpairs=4))
        out.append(s_(f"realised train={train} test={test} step={step} rows={T}", "realised", [train, test, step, T],
                      minpairs=6))
    return out


def c44(tier):
    out = [s_("run", "bake", [], minpairs=20)]
    out += [s_(f"run with another {w}", "bake_rows", [w], two=True, minpairs=3) for w in ("test", "truth")]
    out += [s_(f"scenarios with other {w} rows", "scenario_rows", [w], two=True, minpairs=6) for w in ("train", "test")]
    out += [s_("scenario truths", "scenario_truth", [], minpairs=10)]
    out += [s_(f"leaderboard {k}", "boards", [k], minpairs=4, minhits=1) for k in range(4)]
    return out


def c45(tier):
    return [s_("counts reported as proportions", "exported", [True, 0], minpairs=10, minhits=1),
            s_("counts reported as counts", "exported", [False, 0], minpairs=10, minhits=1)]


CHECKS.update({"C43": c43, "C44": c44, "C45": c45})


# ------------------------------------------------------------------ judge-power study and Schur-likelihood theory
def t_(oid, fn, args, **kw):
    return ob(oid, "theory", fn, args, **kw)


def c46(tier):
    deep = tier != "quick"
    out = []
    for p, n in ((2, 4), (3, 5), (2, 3), (3, 2)) + (((4, 6), (5, 7)) if deep else ()):
        out.append(t_(f"judges p={p} rows={n}", "judges", [p, n], minpairs=11))
    for p, k in ((3, 1), (3, 2), (3, 3), (4, 2)):
        out.append(t_(f"projected likelihood p={p} k={k}", "projections", [p, k, 4], minpairs=1))
    for p, b in ((4, 2), (5, 2), (3, 1), (3, 3), (2, 7)) + (((7, 3), (6, 4)) if deep else ()):
        out.append(t_(f"block pseudo-likelihood p={p} block={b}", "blockwise", [p, b, 4], minpairs=1))
    for ids in ([0, 0, 1], [0, 1, 0, 1], [0, 1, 2]):
        out.append(t_(f"coupling-damped likelihood groups={ids}", "damped", [len(ids), ids, 4], minpairs=2))
    for p in (2, 3):
        out.append(t_(f"projection p={p}", "projecting", [p], minpairs=1))
    for trials, grid, sign in ((2, (2, 4), 1.0), (3, (3, 2), -1.0)):
        out.append(t_(f"power trials={trials} sizes={list(grid)}", "paired", [trials, list(grid), sign], minpairs=20))
    for gap in (0.0, 0.02, 0.05):
        out.append(t_(f"pairs closer than {gap}", "tied", [gap], minpairs=4))
        if gap:
            for study in ("run", "projection"):
                out.append(t_(f"perfect judge in {study}, pairs closer than {gap}", "perfect", [study, gap], minpairs=5))
    for name in ("projection", "noisy tail", "coupling", "blocks, noisy tail", "blocks, clean"):
        out.append(t_(f"study: {name}", "same_sample", [name], minpairs=15))
    for p, k in ((3, 2), (3, 3), (4, 1)):
        out.append(t_(f"subspaces p={p} k={k}", "subspaces", [p, k, 3], minpairs=4))
    return out


def c47(tier):
    deep = tier != "quick"
    out = []
    for sizes in ([1, 1], [2, 1], [1, 2, 1], [3], [2, 2]) + (([1, 1, 1, 1], [3, 2]) if deep else ()):
        n = "+".join(str(s) for s in sizes)
        out.append(t_(f"operator {n}", "schur_operator", [sizes], minpairs=6))
        out.append(t_(f"expected likelihood {n}", "expected", [sizes], minpairs=3))
        out.append(t_(f"maximizer {n}", "maximizer", [sizes], minpairs=3))
        if len(sizes) > 1:
            out.append(t_(f"discrimination ratio {n}", "ratio", [sizes], minpairs=3))
            out.append(t_(f"score gap {n}", "gaps", [sizes], minpairs=4))
    for sizes, n in (([1, 1], 4), ([2, 1], 5)):
        out.append(t_(f"sampled ratio {sizes} rows={n}", "sampled", [sizes, n, 0], minpairs=3))
        out.append(t_(f"first-order prediction {sizes}", "delta", [sizes], minpairs=8))
    for p in (2, 3):
        out.append(t_(f"improper candidate p={p}", "improper", [p, 0], minpairs=1))
    out.append(t_("scalar two-block model", "scalar", [], minpairs=9))
    out.append(t_("trust in the coupling", "trust", [], minpairs=9))
    out.append(t_("best trust on the grid", "best_trust", [7, 5], minpairs=9))
    for p, k in ((4, 2), (5, 3)):
        out.append(t_(f"spiked model p={p} spikes={k}", "spiked_model", [p, k], minpairs=4))
    for p in (4, 5):
        out.append(t_(f"candidates off in the noise subspace p={p}", "pairs_apart", [p], minpairs=4))
    for p, n in ((4, 6), (5, 4)):
        out.append(t_(f"finite-sample pair p={p} rows={n}", "finite_pair", [p, n], minpairs=6))
    out.append(t_("gap over training draws", "over_draws", [4, 6, 2], minpairs=14))
    out.append(t_("structured regime", "structured", [2], minpairs=9))
    for p in (2, 3):
        out.append(t_(f"sampled gap p={p}", "gap_sampled", [p, p + 3, 2], minpairs=9))
        out.append(t_(f"unusable estimates p={p}", "unusable", [p], minpairs=4))
    for p, q in ((1, 1), (2, 1), (2, 2), (1, 2)):
        out.append(t_(f"canonical correlations {p}+{q}", "canonical", [p, q], minpairs=3))
        out.append(t_(f"canonical correlations {p}+{q}, any covariance", "canonical_any", [p, q], minpairs=5))
    for sizes in ([1, 1], [2, 1]):
        out.append(t_(f"local search {sizes}", "searched", [sizes, 3], minpairs=1))
    for n, d in ((3, 2), (4, 3)):
        out.append(t_(f"predictive residual rows={n} draws={d}", "residual", [n, d], minpairs=1))
    return out


CHECKS.update({"C46": c46, "C47": c47})


# ------------------------------------------------------------------ roles
def r_(oid, fn, args, **kw):
    return ob(oid, "roles", fn, args, **kw)


OWN = ["own", "own2", "own3"]


def c49(tier):
    deep = tier != "quick"
    out = []
    for c in configs() + OWN:
        for d in (False, True) if c not in COMPOSITE and (deep or c in OWN) else (False,):
            for p, T in ((2, 7),) + (((1, 8), (3, 7)) if deep else ()):
                out.append(r_(f"{c} diff={d} as volatility p={p} rows={T}", "as_vol", [c, d, p, T], minpairs=8))
                out.append(r_(f"{c} diff={d} as correlation p={p} rows={T}", "as_corr", [c, d, p, T], minpairs=8))
            for dyn in (False, True):
                out.append(r_(f"{c} diff={d} keyed dynamic={dyn}", "as_keyed", [c, d, dyn, 7], minpairs=19))
            for imp in ("ffill", "mean", "zero"):
                out.append(r_(f"{c} diff={d} fixed universe with gaps, {imp}", "as_gappy", [c, d, imp, 7], minpairs=2))
        out.append(r_(f"{c} as both", "as_both", [c, 2, 7], minpairs=7))
    for c in OWN:
        for d in (False, True):
            out.append(r_(f"{c} diff={d} contract", "user_contract", [c, d], minpairs=15))
            for how in ("rows", "batches", "fit", "fit wider", "pickle", "deepcopy", "json"):
                for p in (1, 3) if deep else (3,):
                    out.append(r_(f"{c} diff={d} p={p} {how}", "user_written", [c, d, p, 7, how], minpairs=8))
    for n in registered():
        out.append(r_(f"{n} as it comes", "by_default", [n], minpairs=20, minhits=1))
    return out


CHECKS.update({"C49": c49})


# ------------------------------------------------------------------ synthetic families
def families():
    """The registry's names, read from the source: the keys of the ENSEMBLES literal."""
    import ast
    with open(os.path.join(H.REPO, "research", "oos.py"), encoding="utf-8") as f:
        tree = ast.parse(f.read())
    for n in tree.body:
        t = n.targets[0] if isinstance(n, ast.Assign) else n.target if isinstance(n, ast.AnnAssign) else None
        if isinstance(t, ast.Name) and t.id == "ENSEMBLES" and isinstance(n.value, ast.Dict):
            ks = [k.value for k in n.value.keys if isinstance(k, ast.Constant)]
            if len(ks) == len(n.value.keys):
                return ks
    return ["equicorr", "one_factor", "three_factor", "ar1_toeplitz", "spiked", "diag_hetero", "one_factor_heavy", "ar1_heavy"]


def c55(tier):
    out = [ob("the families there are", "families", "names", [], minpairs=9, minhits=1)]
    for n in families():
        for p in (5, 8) if tier == "quick" else (4, 5, 6, 8, 9):
            if p == 4 and "spiked" in n:
                continue
            out.append(ob(f"{n} p={p}", "families", "member", [n, p], minpairs=4, minhits=1))
    for p, n in ((1, 4), (2, 5), (3, 6), (4, 3)):
        for heavy in (False, True):
            out.append(ob(f"rows p={p} n={n} heavy={heavy}", "families", "sampled", [p, n, heavy], minpairs=3))
    for d, n, m in ((3, 8, 5),) if tier == "quick" else ((3, 8, 5), (2, 12, 4), (4, 10, 8), (5, 12, 3)):
        out.append(ob(f"scenarios d={d} n={n} test={m}", "families", "scenarios", [d, n, m], minpairs=20, minhits=1))
    return out


CHECKS.update({"C55": c55})


# ------------------------------------------------------------------ documentation
def c48(tier):
    from . import docs
    progs, bad, seen = docs.programs(H.REPO)
    if len(progs) < 8:
        raise H.Broken(f"only {len(progs)} documented examples")
    out = []
    for label, mod, src in progs:
        keyed = "learn_one(x)" in src or "update(x)" in src
        for how in ("dicts",) if keyed else ("rows", "lists"):
            out.append(ob(f"{label} on {how}", mod, "main", [how], source=src, minpairs=1, minhits=1))
    out.append(ob("classes the documentation names", "docs", "named", [sorted(docs.mentioned(H.REPO))], minpairs=20, minhits=1))
    out.append(rule("examples are valid Python", bad, seen, "examples"))
    return out


CHECKS.update({"C48": c48})
