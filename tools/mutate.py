"""Systematic small changes to the package: which of them that pass the repository's tests do no check notice?

mutate.py list                      count them
mutate.py run OUT.jsonl [workers]   for each: the checks most likely to notice, until one does; then the stable tests

Survivors are read by hand: each is a change that does nothing, a change outside every stated property, or a gap.
Scratch copies only, under /tmp; nothing here is used by the registered checks.
"""
import ast, copy, json, os, shutil, subprocess, sys, tempfile, hashlib
from multiprocessing.pool import ThreadPool

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ORDER = {
    "pxmcmc/mcmc.py": "C01 C02 C03 C04 C05 C06 C07 C08 C10 C09 C32",
    "pxmcmc/forward.py": "C11 C12 C25 C07 C09 C32",
    "pxmcmc/measurements.py": "C13 C14 C25 C11 C32",
    "pxmcmc/prior.py": "C17 C18 C25 C16 C11",
    "pxmcmc/transforms.py": "C15 C16 C25 C11 C32",
    "pxmcmc/utils.py": "C19 C20 C21 C22 C26 C28 C16 C18 C17 C15 C24 C27 C06",
    "pxmcmc/saving.py": "C23",
    "pxmcmc/uncertainty.py": "C24 C16",
    "pxmcmc/plotting.py": "C27 C28",
    "experiments/phasevel/main.py": "C29 C30",
    "experiments/earthtopography/main.py": "C30",
    "experiments/weaklensing/main.py": "C30",
    "experiments/earthtopography/plot.py": "C31",
    "experiments/phasevel/plot.py": "C31",
    "experiments/weaklensing/plot.py": "C31",
}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Pow: [ast.Mult], ast.FloorDiv: [ast.Mult], ast.Mod: [ast.FloorDiv], ast.MatMult: []}
DROPCALL = {"abs", "real", "copy", "flatten", "ravel", "conj", "astype", "sqrt", "log", "array", "toarray", "degrees", "sort", "getH", "clip"}


def variants(n):
    """(description, replacement) for one node"""
    if isinstance(n, ast.BinOp):
        for o in BIN.get(type(n.op), []):
            m = copy.deepcopy(n); m.op = o(); yield m
        yield copy.deepcopy(n.left)
        yield copy.deepcopy(n.right)
    if isinstance(n, ast.Compare):
        for o in CMP.get(type(n.ops[0]), []):
            m = copy.deepcopy(n); m.ops[0] = o(); yield m
    if isinstance(n, ast.BoolOp):
        m = copy.deepcopy(n); m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And(); yield m
        for v in n.values:
            yield copy.deepcopy(v)
    if isinstance(n, ast.UnaryOp):
        yield copy.deepcopy(n.operand)
    if isinstance(n, ast.Constant):
        if isinstance(n.value, bool):
            yield ast.Constant(not n.value)
        elif isinstance(n.value, (int, float)):
            yield ast.Constant(n.value + 1)
            if n.value > 0:
                yield ast.Constant(n.value - 1) if n.value != 1 else ast.Constant(0)
        elif isinstance(n.value, complex):
            yield ast.UnaryOp(ast.USub(), ast.Constant(n.value))
        elif isinstance(n.value, str) and 0 < len(n.value) < 15 and "\n" not in n.value:
            yield ast.Constant(n.value + "x")
    if isinstance(n, ast.IfExp):
        yield copy.deepcopy(n.body)
        yield copy.deepcopy(n.orelse)
    if isinstance(n, ast.Attribute) and n.attr in ("real", "imag", "T") and isinstance(n.ctx, ast.Load):
        yield copy.deepcopy(n.value)
    if isinstance(n, ast.Call):
        name = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
        if name in DROPCALL:
            if isinstance(n.func, ast.Attribute) and not (isinstance(n.func.value, ast.Name) and n.func.value.id in ("np", "copy")):
                yield copy.deepcopy(n.func.value)
            elif n.args:
                yield copy.deepcopy(n.args[0])
        for i in range(len(n.args) - 1):
            m = copy.deepcopy(n); m.args[i], m.args[i + 1] = m.args[i + 1], m.args[i]; yield m
        for i in range(len(n.keywords)):
            m = copy.deepcopy(n); del m.keywords[i]; yield m
        if name in ("max", "min") and isinstance(n.func, ast.Name):
            m = copy.deepcopy(n); m.func.id = {"max": "min", "min": "max"}[name]; yield m


def statement_variants(s):
    if isinstance(s, (ast.Assign, ast.AugAssign)) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) or isinstance(s, (ast.Raise, ast.Assert)):
        yield ast.Pass()
    if isinstance(s, ast.If):
        m = copy.deepcopy(s); m.test = ast.UnaryOp(ast.Not(), m.test); yield m
        m = copy.deepcopy(s); m.test = ast.Constant(True); yield m
        m = copy.deepcopy(s); m.test = ast.Constant(False); yield m
    if isinstance(s, ast.AugAssign) and type(s.op) in BIN:
        for o in BIN[type(s.op)]:
            m = copy.deepcopy(s); m.op = o(); yield m


def mutants(path, src):
    tree = ast.parse(src)
    doc = {id(n.body[0].value) for n in ast.walk(tree) if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant)}
    seen = {ast.unparse(tree)}
    for parent in ast.walk(tree):
        for field, val in ast.iter_fields(parent):
            items = list(enumerate(val)) if isinstance(val, list) else [(None, val)]
            for i, child in items:
                if not isinstance(child, ast.AST) or id(child) in doc or isinstance(parent, ast.JoinedStr):
                    continue
                reps = list(statement_variants(child)) if isinstance(child, ast.stmt) else list(variants(child))
                for r in reps:
                    if i is None:
                        setattr(parent, field, r)
                    else:
                        val[i] = r
                    try:
                        text = ast.unparse(ast.fix_missing_locations(tree))
                        compile(text, path, "exec")
                    except Exception:
                        text = None
                    if i is None:
                        setattr(parent, field, child)
                    else:
                        val[i] = child
                    if text and text not in seen:
                        seen.add(text)
                        yield {"file": path, "line": getattr(child, "lineno", 0), "old": ast.unparse(child).splitlines()[0], "new": ast.unparse(r).splitlines()[0], "text": text}


def everything(only=None):
    out = []
    for f in ORDER:
        if only and only not in f:
            continue
        src = subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + f], capture_output=True, text=True, check=True).stdout
        for m in mutants(f, src):
            m["id"] = hashlib.sha1((f + m["text"]).encode()).hexdigest()[:12]
            out.append(m)
    return out


def trial(m, w):
    p = os.path.join(w, m["file"])
    orig = open(p).read()
    open(p, "w").write(m["text"])
    env = dict(os.environ, PYTHONPATH=w, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg", VERIF_REPO=w, VERIF_EVIDENCE="/tmp/mut/evidence", VERIF_OUT="/tmp/mut/out")
    try:
        for c in ORDER[m["file"]].split():
            if not os.path.exists(os.path.join(ROOT, "checks", c.lower() + ".py")):
                continue
            try:
                r = subprocess.run([PY, "run.py", c, "--tier", "quick", "--procs", "2"], cwd=ROOT, capture_output=True, text=True, env=env, timeout=600)
            except subprocess.TimeoutExpired:
                return c + "-timeout"
            if r.returncode == 1 and "VIOLATION property=" + c in r.stdout:
                return c
            if r.returncode:
                return f"{c} rc={r.returncode} " + (r.stdout + r.stderr)[-300:]
        try:
            t = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-n", "2", "tests"], cwd=w, capture_output=True, text=True, env=env, timeout=200)
        except subprocess.TimeoutExpired:
            return "tests-timeout"
        if t.returncode:
            return "tests"
        return "SURVIVED"
    finally:
        open(p, "w").write(orig)


def main():
    only = os.environ.get("ONLY")
    ms = everything(only)
    if sys.argv[1] == "list":
        from collections import Counter
        print(Counter(m["file"] for m in ms), len(ms))
        return
    out = sys.argv[2]
    done = {json.loads(l)["id"] for l in open(out)} if os.path.exists(out) else set()
    ms = [m for m in ms if m["id"] not in done]
    n = int(sys.argv[3]) if len(sys.argv) > 3 else 4
    base = tempfile.mkdtemp(prefix="mutate-")
    import queue, threading
    pool = queue.Queue()
    for i in range(n):
        w = os.path.join(base, str(i))
        subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
        pool.put(w)
    lock = threading.Lock()

    def one(m):
        w = pool.get()
        try:
            v = trial(m, w)
        finally:
            pool.put(w)
        with lock, open(out, "a") as f:
            f.write(json.dumps({k: m[k] for k in ("id", "file", "line", "old", "new")} | {"verdict": v}) + "\n")

    try:
        with ThreadPool(n) as p:
            p.map(one, ms, chunksize=1)
    finally:
        shutil.rmtree(base)


if __name__ == "__main__":
    main()
