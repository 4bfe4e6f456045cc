"""Apply behaviour-preserving edits to a scratch copy and run the checks (developer tool).

python3 tools/refactor.py GROUP [--one NAME] [--checks C01,C02] [--tests]
"""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import refs
def opt(n, d=None): return sys.argv[sys.argv.index(n) + 1] if n in sys.argv else d
group, one, checks = sys.argv[1], opt("--one"), opt("--checks")
root = f"/tmp/rf/{group}{one or ''}"
shutil.rmtree(root, ignore_errors=True); os.makedirs("/tmp/rf", exist_ok=True)
subprocess.run(["cp", "-a", "/repo", root], check=True)
for name, edits in refs.SETS[group]:
    if one and name not in one.split(","): continue
    for f, a, b in edits:
        p = os.path.join(root, f); s = open(p).read()
        if a not in s: print("PATTERN", name, f, a[:70]); continue
        open(p, "w").write(s.replace(a, b, 1))
env = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1"}
if "--tests" in sys.argv:
    r = subprocess.run("/opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 8 --timeout=300 2>&1 | tail -15", shell=True, cwd=root, env={**env, "PYTHONPATH": root}, capture_output=True, text=True)
    print(r.stdout[-1500:])
ids = checks.split(",") if checks else [c["id"] if "id" in c else c["property"] for c in json.load(open(VERIF + "/MANIFEST.json"))["checks"]]
for c in ids:
    r = subprocess.run(["python3-vt", "check.py", c], cwd=VERIF, env={**env, "VERIF_REPO": root}, capture_output=True, text=True)
    lines = [l for l in r.stdout.splitlines() if not l.startswith("KNOWN")]
    if r.returncode or " 0 undecided" not in lines[0]:
        print(f"rc={r.returncode}", *[l[:330] for l in lines[:5]], sep="\n   ", flush=True)
    else: print(f"{c} quiet", lines[0].split(";")[-1], flush=True)
shutil.rmtree(root, ignore_errors=True)
