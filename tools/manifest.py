"""Rewrites MANIFEST.json from the check modules (python3 tools/manifest.py)."""
import ast
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "sampler": "stateless model checking of the real samplers: all noise/decision scripts through a controlled random generator, against a reference state machine",
    "history": "explicit enumeration of all operation histories on the real code, against a reference model after every step",
    "basis": "exhaustive enumeration of configurations and complete bases on the real operators, against an independent model",
    "inputs": "exhaustive enumeration of all inputs over a finite alphabet on the real functions, against an exact reference model",
    "threads": "controlled scheduler: all interleavings of two real threads up to a preemption bound, at source-line granularity",
    "crash": "explicit-state search over file-system states of the real scripts: every crash point, torn write, write error and network fault",
    "sched": "controlled scheduler: depth-first search over all completion orders of the real code, bound by real-pool runs",
}
KIND = {**{f"C{i:02d}": "sampler" for i in range(1, 9)}, "C09": "history", "C10": "inputs",
        **{f"C{i}": "basis" for i in (11, 12, 13, 14, 15, 16, 18, 20)}, **{f"C{i}": "inputs" for i in (17, 19, 21, 22, 24, 26, 27)},
        **{f"C{i}": "history" for i in (23, 25, 28)}, "C29": "sched"}


def consts(path):
    t = ast.parse(open(path).read())
    return {n.targets[0].id: ast.literal_eval(n.value) for n in t.body
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("PROPERTY", "BOUNDS", "RULE", "ASSUMES", "LEVEL", "KIND")}



def main():
    checks = []
    for f in sorted(glob.glob(os.path.join(ROOT, "checks", "c*.py"))):
        c = consts(f)
        i = c["PROPERTY"]
        cmd = f"/opt/venv/bin/python run.py {i} --tier "
        checks.append({
            "property": i, "quick_cmd": cmd + "quick", "thorough_cmd": cmd + "thorough", "evidence_file": f"evidence/{i}.json",
            "technique": TECH[c.get("KIND") or KIND[i]], "level": c["LEVEL"],
            "level_note": f"Exhaustive within bounds ({c['BOUNDS']['quick']}). Enumerated: {c['RULE']}. Assumes: {'; '.join(c['ASSUMES'])}.",
        })
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [],
                   "notes": "No hooks: the random generator, worker pools, healpy's printing and the Mollweide projection are replaced from outside before pxmcmc is imported. "
                            "Checks import pxmcmc from /repo's working tree and ignore cached bytecode."}, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
