#!/opt/venv/bin/python
"""run.py C01 [--tier quick|thorough] [--replay FILE] [--procs N]"""
import argparse
import io
import json
import os
import sys
import tempfile
import warnings

ap = argparse.ArgumentParser()
ap.add_argument("property")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
ap.add_argument("--replay")
ap.add_argument("--procs", type=int)
args = ap.parse_args()

for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"
os.environ["MPLBACKEND"] = "Agg"
sys.dont_write_bytecode = True
# never trust bytecode left next to the sources: always compile the current working tree
sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "pxmcmc-verif-no-pycache")
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path[:0] = [HERE, REPO]
warnings.simplefilter("ignore")

from mc import core, rng

rng.install()
real_stdout = sys.stdout


def die(msg, code):
    print(msg, file=real_stdout)
    real_stdout.flush()
    os._exit(code)


def report(mod, v, tier):
    out = os.path.join(HERE, "out")
    os.makedirs(out, exist_ok=True)
    path = os.path.join(out, f"{args.property}-{core.digest(v['msg'] + repr(v['case'])):016x}.json")
    with open(path, "w") as f:
        json.dump({"property": args.property, "tier": tier, "message": v["msg"], "case": core.jsonable(v["case"]),
                   "replay": f"/opt/venv/bin/python /verif/run.py {args.property} --replay {path}"}, f, indent=1)
    print(v["msg"], file=real_stdout)
    print(f"VIOLATION property={args.property} replay={path}", file=real_stdout)


sys.stdout = io.StringIO()
import importlib

try:
    import pxmcmc

    if os.path.realpath(pxmcmc.__path__[0]) != os.path.realpath(os.path.join(REPO, "pxmcmc")):
        die(f"pxmcmc imported from {pxmcmc.__path__[0]}, not from {REPO}", 3)
    mod = importlib.import_module("checks." + args.property.lower())
finally:
    sys.stdout = open(os.devnull, "w")

if args.replay:
    with open(args.replay) as f:
        art = json.load(f)
    v = core._safe_run(mod, art["case"], core.Recorder(), "thorough")
    if v is None:
        die("replay: no violation", 0)
    report(mod, v, args.tier)
    die("", 1)

res = core.explore(mod, args.tier, args.procs)
known = core.load_known(args.property)
fresh = []
for v in res["violations"]:
    hit = [k for k in known if core.jsonable(v["case"]) == k["case"]]
    if hit:
        print(f"KNOWN-FINDING: property={args.property} {hit[0]['what']}", file=real_stdout)
    else:
        fresh.append(v)
res["violations"] = fresh
ev = core.write_evidence(mod, args.tier, res)
c = ev["coverage"]
print(
    f"{args.property} [{args.tier}] cases={c['cases_enumerated']} states={c['states']} transitions={c['transitions']} "
    f"traces={c['traces_validated_against_impl']} outcomes={c['distinct_outcomes']} exhaustive={c['exhaustive']} wall={ev['wall_s']}s",
    file=real_stdout,
)
if fresh:
    for v in fresh[:3]:
        report(mod, v, args.tier)
    die("", 1)
die("", 0)
