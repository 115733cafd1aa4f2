"""Rewrites DESIGN.md from the text below, the check modules, known_findings.json and tools/caught.json."""
import glob, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from manifest import consts, KIND, TECH
from seeds import SEEDS

props = {d["id"]: d for d in map(json.loads, open(os.path.join(ROOT, "properties.jsonl")))}
WHY = json.load(open(os.path.join(ROOT, "tools", "why.json")))
out = [open(os.path.join(ROOT, "tools", "design_head.md")).read()]
out.append("## The properties one by one\n")
for f in sorted(glob.glob(os.path.join(ROOT, "checks", "c*.py"))):
    c = consts(f)
    i = c["PROPERTY"]
    w = WHY[i]
    out.append(f"### {i} {props[i]['title']}\n\n* Decided by: {TECH[c.get('KIND') or KIND[i]]}.\n* Enumerated: {c['RULE']}.\n* Oracle: {w['oracle']}\n"
               f"* Bounds, quick: {c['BOUNDS']['quick']}. Cost: {w['cost']}.\n* Bounds, thorough: {c['BOUNDS']['thorough']}.\n* Assumes: {'; '.join(c['ASSUMES'])}.\n* Reaches what tests cannot: {w['why']}\n")
out.append(open(os.path.join(ROOT, "tools", "design_tail.md")).read())
out.append("\n## Genuine defects found and repaired\n\nEach is a `fix:` commit in /repo, listed in known_findings.json; none is left unrepaired among the claimed properties.\n")
kf = json.load(open(os.path.join(ROOT, "known_findings.json")))
out += ["* " + x for x in kf["fixed"]] + [""]
caught = json.load(open(os.path.join(ROOT, "tools", "caught.json")))
out.append("## Planted bugs and the checks that catch them\n\nEvery change passes the 85 stable tests; `python3 tools/plant.py all` reproduces the table (quick tier of every check, against a scratch copy).\n\n| change | property | needs | caught by |\n|---|---|---|---|")
for s in SEEDS:
    out.append(f"| {s['id']} | {s['property']} | {s['needs']} | {caught.get(s['id'], '(not run)')} |")
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out) + "\n")
