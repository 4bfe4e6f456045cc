"""Plant bugs (developer tool): python3 tools/plant.py [ID ...] [--quick]

For every bug of tools/bugs.py: scratch copy, edit, demonstration (must pass before, fail after), the repository's tests, and the
property's check.  Writes seeded/<id>/ for the ones that qualify.
"""
import json, os, re, shutil, subprocess, sys, textwrap
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import bugs
PY = "/opt/venv/bin/python"
SH = '#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'
ENV = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1"}
def sh(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env or ENV, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=timeout)
def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]; quick = "--quick" in sys.argv
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for b in bugs.BUGS:
        if args and b["id"] not in args: continue
        root = f"/tmp/pl/{b['id']}"
        shutil.rmtree(root, ignore_errors=True); os.makedirs("/tmp/pl", exist_ok=True)
        sh(["cp", "-a", "/repo", root], "/")
        d = f"/tmp/pl/{b['id']}.d"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + "/demo.py", "w").write(textwrap.dedent(b["demo"]).lstrip()); open(d + "/demo.sh", "w").write(SH); os.chmod(d + "/demo.sh", 0o755)
        r0 = sh(["bash", d + "/demo.sh"], root)
        if r0.returncode != 0:
            print(b["id"], "DEMO FAILS ON CLEAN", r0.stdout[-300:], r0.stderr[-500:]); continue
        ok = True
        for f, old, new in b["edits"]:
            p = os.path.join(root, f); s = open(p).read()
            if s.count(old) < 1: print(b["id"], "PATTERN", f, old[:60]); ok = False; break
            open(p, "w").write(s.replace(old, new, 1))
        if not ok: continue
        patch = sh(["git", "diff"], root).stdout
        r1 = sh(["bash", d + "/demo.sh"], root)
        demo = "demo-fails" if r1.returncode != 0 else "DEMO PASSES WITH PATCH"
        tests = "tests-skipped"
        if not quick:
            env = {**ENV, "PYTHONPATH": root}
            sh(f"{PY} -m pytest -q -p no:cacheprovider -n 8 --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml={d}/junit.xml", root, env)
            sh(f"python3 /opt/vp/results.py {d}/t.json junit:{d}/junit.xml", root)
            lost = base - set(json.load(open(d + "/t.json"))["passed"])
            tests = "tests-pass" if not lost else "TESTS FAIL " + " ".join(sorted(lost)[:4])
        c = sh(["python3-vt", "check.py", b["prop"]], VERIF, {**ENV, "VERIF_REPO": root})
        und = re.search(r"(\d+) undecided", c.stdout)
        print(b["id"], b["prop"], demo, tests, "CAUGHT" if c.returncode == 1 and f"VIOLATION property={b['prop']}" in c.stdout else f"MISSED rc={c.returncode}", und.group(0) if und else "", "| " + (r1.stderr.strip().splitlines() or ["?"])[-1][:120], flush=True)
        for l in c.stdout.splitlines():
            if l.startswith("  ") and c.returncode == 1: print("    ", l[:200]); break
        if demo == "demo-fails" and tests == "tests-pass":
            o = f"{VERIF}/seeded/{b['id']}"; os.makedirs(o, exist_ok=True)
            for f in ("demo.py", "demo.sh"): shutil.copy(f"{d}/{f}", o)
            open(o + "/patch.diff", "w").write(patch)
            json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(o + "/meta.json", "w"), indent=1)
        shutil.rmtree(root, ignore_errors=True); shutil.rmtree(d, ignore_errors=True)
main()
