"""Systematic small mutations of one source file (developer tool).

python3 tools/mutate.py FILE CHECK[,CHECK...] [--jobs N] [--from I] [--to J] [--list]

Every mutant is one change of the syntax tree (operator, comparison, constant, negated test, dropped statement, swapped
arguments); survivors - mutants none of the checks reports - are printed with their line.
"""
import ast, copy, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
def opt(n, d=None): return sys.argv[sys.argv.index(n) + 1] if n in sys.argv else d
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.FloorDiv: ast.Div, ast.MatMult: None, ast.BitOr: None, ast.Mod: None}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
def mutants(src):
    tree = ast.parse(src)
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            skip.add(id(n.body[0])); skip.add(id(n.body[0].value))
        if isinstance(n, (ast.AnnAssign, ast.arg)) and n.annotation:
            for m in ast.walk(n.annotation): skip.add(id(m))
        if isinstance(n, ast.FunctionDef) and n.returns:
            for m in ast.walk(n.returns): skip.add(id(m))
        if isinstance(n, ast.FunctionDef) and n.name in ("report", "__repr__", "report_general", "projection_report", "compute_scaling", "variance_blowup"):
            for m in ast.walk(n): skip.add(id(m))
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and isinstance(n.test.left, ast.Name) and n.test.left.id == "__name__":
            for m in ast.walk(n): skip.add(id(m))
        if isinstance(n, ast.Raise):
            for m in ast.walk(n): skip.add(id(m))
        if isinstance(n, ast.JoinedStr):
            for m in ast.walk(n): skip.add(id(m))
    out = []
    def emit(node, what):
        out.append((getattr(node, "lineno", 0), what, ast.unparse(tree)))
    for n in ast.walk(tree):
        if id(n) in skip: continue
        if isinstance(n, ast.BinOp) and BIN.get(type(n.op)):
            o = n.op; n.op = BIN[type(o)](); emit(n, f"{type(o).__name__}->{type(n.op).__name__}: {ast.unparse(n)[:80]}"); n.op = o
        if isinstance(n, ast.AugAssign) and BIN.get(type(n.op)):
            o = n.op; n.op = BIN[type(o)](); emit(n, f"{type(o).__name__}->: {ast.unparse(n)[:80]}"); n.op = o
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = n.ops[0]; n.ops[0] = CMP[type(o)](); emit(n, f"{type(o).__name__}->: {ast.unparse(n)[:80]}"); n.ops[0] = o
        if isinstance(n, ast.BoolOp):
            o = n.op; n.op = ast.And() if isinstance(o, ast.Or) else ast.Or(); emit(n, f"bool: {ast.unparse(n)[:80]}"); n.op = o
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            o = n.op; n.op = ast.UAdd() if isinstance(o, ast.USub) else ast.Not()
            if isinstance(o, ast.USub): emit(n, f"sign: {ast.unparse(n)[:80]}")
            n.op = o
        if isinstance(n, (ast.If, ast.IfExp, ast.While)) :
            o = n.test; n.test = ast.UnaryOp(ast.Not(), o) if not isinstance(n, ast.While) else o
            if not isinstance(n, ast.While): emit(n, f"not: {ast.unparse(o)[:80]}")
            n.test = o
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            o = n.value; n.value = o + 1 if isinstance(o, int) else o * 1.5 + (1.0 if o == 0 else 0); emit(n, f"const {o}->{n.value}"); n.value = o
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            n.value = not n.value; emit(n, f"bool const -> {n.value}"); n.value = not n.value
        if isinstance(n, ast.Call) and len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            a = n.args; n.args = a[::-1]; emit(n, f"args: {ast.unparse(n)[:80]}"); n.args = a
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not n.args:
            f, v = n.func, n.func.value
            n.func, n.args = ast.Name("_same", ast.Load()), [v]
            out.append((n.lineno, f"no copy: {ast.unparse(v)[:60]}", ast.unparse(tree) + "\ndef _same(v): return v\n")); n.func, n.args = f, []
        if isinstance(n, ast.Attribute) and n.attr == "T":
            n.attr = "real"; emit(n, f"no transpose: {ast.unparse(n)[:60]}"); n.attr = "T"
        for fld in ("body", "orelse"):
            b = getattr(n, fld, None)
            if not isinstance(b, list): continue
            for i, st in enumerate(list(b)):
                if id(st) in skip or isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Raise, ast.Pass)): continue
                if isinstance(st, ast.Return): continue
                b[i] = ast.Pass(); emit(st, f"drop: {ast.unparse(st).splitlines()[0][:80]}"); b[i] = st
        if isinstance(n, ast.Return) and n.value is not None and False: pass
    return out
def main():
    f, checks = sys.argv[1], sys.argv[2].split(",")
    src = open(os.path.join("/repo", f)).read()
    ms = [m for m in mutants(src)]
    lo, hi = int(opt("--from", 0)), int(opt("--to", len(ms)))
    if "--list" in sys.argv:
        for i, (l, w, _) in enumerate(ms): print(i, l, w)
        return
    base = f"/tmp/mt/{os.getpid()}"; os.makedirs(base, exist_ok=True)
    jobs = int(opt("--jobs", 6))
    roots = []
    for j in range(jobs):
        r = f"{base}/{j}"; shutil.rmtree(r, ignore_errors=True)
        subprocess.run(f"mkdir -p {r} && cp -a /repo/precise /repo/pyproject.toml {r}/ && mkdir {r}/research && cp -a /repo/research/*.py {r}/research/", shell=True, check=True)
        roots.append(r)
    import queue
    q = queue.Queue()
    for r in roots: q.put(r)
    caught = [0, 0]
    def one(i):
        l, w, text = ms[i]
        r = q.get()
        try:
            p = os.path.join(r, f)
            open(p, "w").write(text)
            und = ""
            for c in checks:
                try:
                    o = subprocess.run(["python3-vt", "check.py", c, "--jobs", "1", "--stop"], cwd=VERIF, capture_output=True, text=True, timeout=600,
                                       env={**os.environ, "VERIF_REPO": r, "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1"})
                except subprocess.TimeoutExpired:
                    und += f" {c}:timeout"; continue
                if o.returncode == 1: return i, True, c
                if o.returncode: und += f" {c}:rc{o.returncode}"
            return i, False, und
        finally:
            open(os.path.join(r, f), "w").write(src)
            q.put(r)
    with ThreadPoolExecutor(jobs) as ex:
        for i, ok, c in ex.map(one, range(lo, min(hi, len(ms)))):
            caught[ok] += 1
            if not ok: print(f"SURVIVED {i} {f}:{ms[i][0]} {ms[i][1]} {c}", flush=True)
    print(f"{f}: {caught[1]} caught, {caught[0]} survived", flush=True)
    shutil.rmtree(base, ignore_errors=True)
main()
