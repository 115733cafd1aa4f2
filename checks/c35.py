"""C35: progress reports tell what happened."""
import contextlib
import io
import re

import numpy as np

from mc import sampler as S
from mc.core import Violation
from checks.c07 import histories

PROPERTY = "C35"
LEVEL = "model_checking"
KIND = "sampler"
ASSUMES = ["operators and priors are user-defined test doubles with documented interfaces", "reports are lines on standard output"]
RULE = ("every schedule x verbosity x sampler (x every feasible accept/reject history for PxMALA) on scripted draws: the lines printed are parsed and compared, "
        "line by line, with the iterations that the model says are reported and the numbers it computes from the unthinned chain")
BOUNDS = {"quick": "nsamples 0..4 x nburn 0..3 x ngap 0..3 x verbosity {0,1,2,3,4.0,-1} x 3 samplers x 3 problems; all PxMALA histories of <= 4 iterations, tuning on and off; runs of up to 2500 iterations and 1200 samples with verbosity 1..1000; log posteriors of -1e6",
          "thorough": "nsamples 0..6 x nburn 0..5 x ngap 0..4 x verbosity {0,1,2,3,4.0,5,7,-1} x 3 samplers x 5 problems; all PxMALA histories of <= 6 iterations, tuning on and off; runs of up to 2500 iterations and 1200 samples with verbosity 1..1000; log posteriors of -1e6"}
NUMBER = r"[-+]?(?:\d[\d.]*(?:e[-+]?\d+)?|inf|nan)"


def cases(tier):
    q = tier == "quick"
    out = []
    for prob in ("real2", "cplx2", "realcplx") if q else list(S.PROBS)[:5]:
        for algo in ("myula", "skrock", "pxmala"):
            for tune in (False,) if algo != "pxmala" else (False, True):
                for ns in range(5 if q else 7):
                    for nb in range(4 if q else 6):
                        out.append({"prob": prob, "algo": algo, "tune": tune, "ns": ns, "nb": nb, "gaps": list(range(4 if q else 5)), "full": 4 if q else 6,
                                    "verb": [0, 1, 2, 3, 4.0, -1] if q else [0, 1, 2, 3, 4.0, 5, 7, -1]})
    for algo in ("myula", "skrock", "pxmala"):
        for ns, nb, gap in ((150, 30, 3), (1200, 100, 2), (12, 900, 40)):
            out.append({"prob": "real2", "algo": algo, "tune": algo == "pxmala", "ns": ns, "nb": nb, "gaps": [gap], "full": 0, "verb": [1, 7, 100, 1e3]})
        for prob in list(S.BIG) + list(S.DULL):
            out.append({"prob": prob, "algo": algo, "tune": False, "ns": 5, "nb": 2, "gaps": [2], "full": 0, "verb": [1, 3]})
    return out


def near(text, v):
    try:
        x = float(text)
    except ValueError:
        return False
    return x == v or abs(x - v) <= 1e-7 * abs(v) + 1e-14


def run_case(case, rec):
    prob, algo = S.PROBS[case["prob"]], case["algo"]
    ns, nb = case["ns"], case["nb"]
    for gap in case["gaps"]:
        base = dict(nsamples=ns, nburn=nb, ngap=gap, tune=case["tune"], s=2)
        n = S.n_iter(S.Cfg(base))
        for path in histories(algo, prob, S.Cfg(base), n, case["full"]):
            # every state of the chain, from a silent run that saves them all
            full = S.observe(algo, prob, S.Cfg(base, nsamples=n, nburn=0, ngap=1, track=("chain",), verbosity=0), path.g, path.u)
            X = np.array(full.chain)
            facts = {}
            acc = [int(a) for a in full.acceptance_trace] if algo == "pxmala" else None
            for verb in case["verb"]:
                label = (f"{algo} on '{prob.name}' with verbosity {verb} (nsamples={ns} nburn={nb} ngap={gap} tune={case['tune']}"
                         + (f" history={acc[:12]})" if acc else ")"))
                text = io.StringIO()
                with contextlib.redirect_stdout(text):
                    S.observe(algo, prob, S.Cfg(base, verbosity=verb), path.g, path.u)
                lines = [x.strip() for x in text.getvalue().splitlines()]
                lines = [x for x in lines if x and x.upper() != "DONE"]
                due = [i for i in range(n) if verb > 0 and (i + 1) % verb == 0]
                if len(lines) != len(due):
                    raise Violation(f"{label}: {len(lines)} reports in {n} iterations, {len(due)} are due: {lines[:4]}")
                for i, line in zip(due, lines):
                    rec.step()
                    if i < nb and algo != "pxmala":
                        if "burn" not in line.lower() or re.search(r"\d", line):
                            raise Violation(f"{label}: after iteration {i + 1}, during burn-in, reports {line!r}")
                        continue
                    count = 0 if i < nb else (i - nb) // max(gap, 1) + 1
                    at = i if algo == "pxmala" else nb + (count - 1) * max(gap, 1)
                    if at not in facts:
                        y = prob.forward(X[at])
                        facts[at] = {"logposterior": S.logpost(prob, S.Cfg(base), X[at]), "L2": prob.L2(y), "prior": prob.prior(X[at])}
                    want = dict(facts[at])
                    if acc:
                        want["acceptanceRate"] = sum(acc[: i + 1]) / (i + 1)
                    m = re.search(r"([\d,]+)\s*/\s*([\d,]+)", line)
                    if not m or (m.group(1).replace(",", ""), m.group(2).replace(",", "")) != (str(count), str(ns)):
                        raise Violation(f"{label}: after iteration {i + 1} reports {line!r}, {count} of {ns} samples are saved")
                    got = dict(re.findall(rf"(\w+):\s*({NUMBER})(?!\S)", line))
                    for k, v in want.items():
                        if k not in got or not near(got[k], v):
                            raise Violation(f"{label}: after iteration {i + 1} reports {line!r}, {k} is {v!r}")
                rec.trace()
                rec.state(algo, prob.name, ns, nb, gap, verb, tuple(path.acc), case["tune"])
                rec.outcome(algo, "\n".join(lines))
    rec.sample({"algo": algo, "problem": prob.name, "nsamples": ns, "nburn": nb, "ngap": case["gaps"], "verbosity": case["verb"]})
