"""Build and confirm planted bugs: plant.py build [id...] | check [id...]

build: in a scratch copy of /repo, apply each change of seeds.py, confirm that the stable tests pass and that the
demonstration passes without and fails with it, and write seeded/<id>/.
check: run the property's quick check against a scratch copy with the change and say whether it is caught.
"""
import json, os, shutil, subprocess, sys, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from seeds import SEEDS

PY = "/opt/venv/bin/python"
DEMO = '''#!/bin/sh
# cwd: the repository. Exit 0: the property holds in this demonstration.
here=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONWARNINGS=ignore PYTHONPATH="$PWD" exec /opt/venv/bin/python "$here/demo.py"
'''


def scratch():
    d = tempfile.mkdtemp(prefix="plant-")
    w = os.path.join(d, "repo")
    subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
    return d, w


def apply(w, s):
    for f, old, new in s["edits"]:
        p = os.path.join(w, f)
        t = open(p).read()
        assert t.count(old) == s.get("count", 1), (s["id"], f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))


def demo(w, folder):
    return subprocess.run(["sh", os.path.join(folder, "demo.sh")], cwd=w, capture_output=True, text=True, timeout=300)


def build(s):
    out = os.path.join(ROOT, "seeded", s["id"])
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, "demo.sh"), "w").write(DEMO)
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    open(os.path.join(out, "demo.py"), "w").write(s["demo"].lstrip())
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    d, w = scratch()
    try:
        r = demo(w, out)
        if r.returncode:
            return "DEMO FAILS ON THE UNCHANGED TREE " + r.stderr[-1500:]
        apply(w, s)
        diff = subprocess.run(["git", "diff"], cwd=w, capture_output=True, text=True).stdout
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        r = demo(w, out)
        if not r.returncode:
            return "DEMO PASSES WITH THE BUG"
        t = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-n", "4", "-p", "no:cacheprovider", "tests"], cwd=w, capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=w, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1"))
        if t.returncode:
            return "TESTS FAIL " + t.stdout[-800:]
        return "ok: " + (r.stderr.strip().splitlines() or ["?"])[-1][:150]
    finally:
        shutil.rmtree(d)


def check(s, every=False):
    d, w = scratch()
    try:
        apply(w, s)
        res = []
        props = [f"C{i:02d}" for i in range(1, 40) if os.path.exists(os.path.join(ROOT, "checks", f"c{i:02d}.py"))] if every else [s["property"]]
        for p in props:
            r = subprocess.run([PY, "run.py", p, "--tier", "quick"], cwd=ROOT, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=w))
            hit = r.returncode == 1 and f"VIOLATION property={p}" in r.stdout
            if hit or not every:
                res.append(p + (" CAUGHT " if hit else f" MISSED rc={r.returncode} ") + (next((l for l in r.stdout.splitlines() if not l.startswith(p + " [")), "")[:160] if not every else ""))
        return "; ".join(res)
    finally:
        shutil.rmtree(d)


def one(s):
    return s["id"], s["property"], {"build": build, "check": check, "all": lambda x: check(x, True)}[sys.argv[1]](s)


if __name__ == "__main__":
    from multiprocessing.pool import ThreadPool

    todo = [s for s in SEEDS if not sys.argv[2:] or s["id"] in sys.argv[2:]]
    with ThreadPool(3 if sys.argv[1] == "build" else 3) as p:
        for r in p.imap(one, todo):
            print(*r, flush=True)
