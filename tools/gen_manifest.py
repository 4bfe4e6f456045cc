"""Write MANIFEST.json from the registered checks (developer tool)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, ".."))
from sa import checks  # noqa: E402

NA = {
    "C50": "convergence quantifies over probability distributions and unbounded streams; no sound static argument in reach "
           "bounds the error of these recursions, and sampling streams would be a runtime test",
    "C51": "needs floating-point error bounds over unbounded streams through eigen- and Cholesky factorisations; the "
           "analysis works over the reals (value numbers), so rounding is outside what it can decide",
    "C52": "an empirical claim about average ranks on random families; only executing the study can support or refute it",
    "C53": "a statistical comparison over contamination patterns; no static argument bounds the two errors against each other",
    "C54": "termination of the ridge loop depends on when a floating-point Cholesky factorisation succeeds, a runtime "
           "quantity of the linear-algebra library",
}
ABS = ("abstract interpretation of the library source (symbolic data, hash-consed value numbers, all paths joined, aliasing "
       "heap) against {}; equality of value numbers, then random interpretation; nothing of the library is executed")
TECH = {
    "C40": ABS.format("an environment where only numpy and the standard library can be imported") +
    "; plus syntax-tree rules over imports and import-time calls",
    "C41": ABS.format("ImportError as the only outcome of every import under the removed namespace") +
    "; plus a syntax-tree rule over the package's imports",
    "C42": "syntax-tree rules: grammar of the declared Python floor, tables of standard-library and numpy names by version, "
           "type-checker stubs compared between the floor and the newest version",
}
AGAINST = {
    "two": "a second interpretation that must be indistinguishable (other chunking, copy, history, order or data)",
    "ref": "reference definitions interpreted by the same engine",
}
TWO = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C10", "C12", "C13", "C14", "C38"}


def main():
    props = [json.loads(x) for x in open(os.path.join(HERE, "..", "properties.jsonl"))]
    out = {"version": 1, "setup_cmd": "python3-vt -c 'import numpy, ast'", "checks": [], "not_applicable": []}
    for p in props:
        pid = p["id"]
        if pid in checks.CHECKS:
            out["checks"].append({
                "property": pid, "quick_cmd": f"python3-vt check.py {pid} --tier quick",
                "thorough_cmd": f"python3-vt check.py {pid} --tier thorough",
                "technique": TECH.get(pid) or ABS.format(AGAINST["two" if pid in TWO else "ref"]),
                "level": "other",
                "level_note": "Static analysis over all paths, symbolic values and hyper-parameters, for the listed dimensions and "
                              "stream lengths (evidence lists every obligation); real arithmetic, equality decided up to "
                              "random interpretation (one-sided error probability negligible); numpy as modelled."
                if pid != "C42" else "Complete for names in the tables and the stubs; values of unknown type are judged by "
                                     "attribute name only."})
        else:
            out["not_applicable"].append({"property": pid, "reason": NA[pid]})
    out["notes"] = ("Checks parse /repo's working tree on every run and never import or run the library. Undecided obligations "
                    "(constructs outside the model) are reported in the evidence and never raise an alarm.")
    with open(os.path.join(HERE, "..", "MANIFEST.json"), "w") as f:
        json.dump(out, f, indent=1)
        f.write("\n")
    print(len(out["checks"]), "checks,", len(out["not_applicable"]), "not applicable")


main()
