"""C05: step-size tuning stays in bounds and follows acceptance.

The step size every iteration used is read off the proposals: the forward operator (a test double with a
slowly varying posterior and no gradient) records the points it is evaluated at, and a proposal is
X + sqrt(2 delta) w.  The law is evaluated on the decisions that were really taken.
"""
import copy
import itertools
import math

import numpy as np

from mc import sampler as S
from mc.core import Violation

PROPERTY = "C05"
LEVEL = "model_checking"
ASSUMES = ["operators and priors are user-defined test doubles with documented interfaces"]
RULE = "every accept/reject history of the stated length, for each (lmda, initial delta); plus long histories that reach both limits; step sizes used and reported are compared with the law"
BOUNDS = {"quick": "all 2^9 histories x 14 (lmda, delta0) x tuning on/off x 5 choices of burn-in, thinning, verbosity and tracking; 8 patterns of 400 iterations; 2 paths of 4500 iterations that walk from one limit to the other",
          "thorough": "all 2^13 histories x 14 (lmda, delta0) x tuning on/off x 5 choices of burn-in, thinning, verbosity and tracking; 8 patterns of 5000 iterations for each"}
PAIRS = [(1.0, 0.1), (1e7, 0.2), (1e-3, 4e-4), (1.0, 3.0), (1.0, 1e-10), (0.5, 2e-8), (1e7, 0.05), (3e-5, 1e-5), (2.0, 1.0), (1e4, 6e3), (10.0, 1e-3), (1e-6, 1e-7), (1e-12, 3e-13), (2e-5, 5e-13)]


class SlowForward(S.ForwardOperator):
    def __init__(self):
        super().__init__(np.zeros(1), 1.0, "synthesis", nparams=2)
        self.points = []

    def forward(self, X):
        self.points.append(np.array(X))
        return np.array([math.sqrt(200 * math.log1p(abs(X[0]) + abs(X[1])))])

    def calc_gradg(self, preds):
        return np.zeros(2)


class FlatPrior(S.L1):
    def __init__(self):
        super().__init__("synthesis", None, None, 1.0)

    def prior(self, X):
        return 0.0

    def proxf(self, X):
        return X


def pat(name, i):
    return {"acc": True, "rej": False, "alt": i % 2 == 0, "alt2": i % 2 == 1, "a2r1": i % 3 != 2, "r2a1": i % 3 == 2,
            "half": i < 60, "half2": i >= 60, "walk": i < 200, "walk2": i >= 200}[name]


def cases(tier):
    q = tier == "quick"
    n = 9 if q else 13
    out = []
    for lm, de in PAIRS:
        for tune in (True, False):
            for pre in itertools.product((True, False), repeat=3):
                out.append({"lmda": lm, "delta": de, "tune": tune, "prefix": list(pre), "n": n})
            for p in ("acc", "rej", "alt", "alt2", "a2r1", "r2a1", "half", "half2"):
                out.append({"lmda": lm, "delta": de, "tune": tune, "pattern": p, "n": 400 if q else 5000})
    for p in ("walk", "walk2"):
        out.append({"lmda": 1.0, "delta": 0.4, "tune": True, "pattern": p, "n": 4500})
    return out


def law(delta, i, a, lmda):
    f = 1 + (0.5 if a else -0.5) / (i + 1) ** 0.75
    return min(max(delta * f, 1e-8 * lmda), lmda / 2)


START = np.array([0.5, -0.4])


# (nburn, ngap, verbosity, tracked): none of these matters to the step size
RUNS = [(0, 1, 0, ["chain"]), (3, 1, 0, []), (1, 2, 1, ["chain", "logposterior"]), (4, 4, 3, ["predictions"]), (0, 0, 2, ["L2", "prior"]), (8, 5, 0, ["chain"])]


def go(case, hist, rec, run=RUNS[0]):
    nb, gap, verb, track = run
    nb = min(nb, len(hist) - 1)
    ns = (len(hist) - 1 - nb) // max(gap, 1) + 1
    hist = hist[: nb + (ns - 1) * max(gap, 1) + 1]
    lm, d0, tune = case["lmda"], case["delta"], case["tune"]
    n = len(hist)
    # script: simulate the trivial dynamics with the law
    X, d, g, u = START.copy(), d0, [], []
    for i, a in enumerate(hist):
        w = [0.9 + 0.2 * math.sin(i), 0.8 + 0.15 * math.cos(3 * i)]
        z = np.array([w[k] * (1 if X[k] >= 0 else -1) for k in (0, 1)])
        if a and i % 2 == 0:
            z = -z
        P = X + math.sqrt(2 * d) * z
        g += list(z)
        u.append(1e-250 if a else 1 - 1e-15)
        if a:
            X = P
        if tune:
            d = law(d, i, a, lm)
    fwd = SlowForward()
    par = S.PxMCMCParams(lmda=lm, delta=d0, mu=1.0, nsamples=ns, nburn=nb, ngap=gap, complex=False, verbosity=verb, track=list(track))
    before = copy.deepcopy(par.__dict__)
    m = S.PxMALA(fwd, FlatPrior(), par, tune_delta=tune)
    label = f"lmda={lm} delta={d0} tune={tune} history {''.join('AR'[not a] for a in hist[:40])}{'...' if n > 40 else ''} (nsamples={ns} nburn={nb} ngap={gap})"
    S.observe("pxmala", NoProb, S.Cfg(lmda=lm, delta=d0, tune=tune), g, u, start=START.copy(), m=m)
    if par.__dict__ != before:
        raise Violation(f"{label}: the parameter object changed from {before} to {par.__dict__}")
    pts = [p for k, p in enumerate(fwd.points) if k == 0 or not np.array_equal(p, fwd.points[k - 1])]
    acc = [bool(a) for a in m.acceptance_trace]
    if len(acc) != n:
        raise Violation(f"{label}: {n} iterations, acceptance trace of {len(acc)}")
    states = [START]
    if run is RUNS[0]:
        states += [np.array(r) for r in m.chain]
    elif len(pts) == n + 1:
        for p, a in zip(pts[1:], acc):
            states.append(p if a else states[-1])
    # the law, on the decisions taken
    d, want = d0, [d0]
    for i, a in enumerate(acc):
        d = law(d, i, a, lm) if tune else d
        want.append(d)
    trace = [float(x) for x in m.deltas_trace]
    expect = want if tune else [d0]
    if len(trace) == len(expect):
        for i, (t, w) in enumerate(zip(trace, expect)):
            if not abs(t - w) <= 1e-9 * w:
                raise Violation(f"{label}: step size {i} is {t}, the law gives {w}")
    if not abs(m.delta - want[-1]) <= 1e-9 * want[-1]:
        raise Violation(f"{label}: step size after the run is {m.delta}, the law gives {want[-1]}")
    for i in range(len(states) - 1):
        z = np.array(g[2 * i : 2 * i + 2])
        cand = pts[i + 1] if len(pts) == n + 1 else (states[i + 1] if acc[i] else None)
        if cand is None:
            continue
        r = (cand - states[i]) / z
        tol = 1e-7 + 1e-13 * (1 + np.max(np.abs(states[i]))) / math.sqrt(want[i])
        if not np.all(np.abs(r / math.sqrt(2 * want[i]) - 1) <= tol):
            raise Violation(f"{label}: iteration {i} proposed with step size {float(np.mean(r)) ** 2 / 2}, the law gives {want[i]}")
    rec.trace()
    rec.step(n)
    rec.state(lm, d0, tune, tuple(acc))
    rec.outcome(round(math.log(want[-1]), 9))
    rec.extra["at_upper_limit"] += sum(1 for w in want[1:] if w == lm / 2)
    rec.extra["at_lower_limit"] += sum(1 for w in want[1:] if w == 1e-8 * lm)


class NoProb:
    name = "slow"


def run_case(case, rec):
    n = case["n"]
    if "pattern" in case:
        for run in RUNS if n < 1000 else RUNS[:1]:
            go(case, [pat(case["pattern"], i) for i in range(n)], rec, run)
        return
    pre = tuple(case["prefix"])
    for rest in itertools.product((True, False), repeat=n - len(pre)):
        for run in RUNS[:5]:
            go(case, pre + rest, rec, run)
    rec.sample({"lmda": case["lmda"], "delta": case["delta"], "tune": case["tune"], "history": [int(a) for a in pre + rest]})
