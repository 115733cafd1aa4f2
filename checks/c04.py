"""C04: PxMALA's acceptance and step-size traces tell what happened.

Model-free: what happened is read off the run itself.  An iteration's proposal was accepted
exactly when the state changed (seen in the unthinned chain of a twin run on the same draws).
The step size an iteration used is recovered from its proposals: the test double of the
forward operator records every point it is evaluated at, and with zero gradient and prox =
identity a proposal is X + sqrt(2 delta) w.
"""
import itertools
import math

import numpy as np

from mc import sampler as S
from mc.core import Violation

PROPERTY = "C04"
LEVEL = "model_checking"
ASSUMES = ["operators and priors are user-defined test doubles with documented interfaces"]
RULE = "every accept/reject history of the stated length x schedule x tuning x one or two runs of the same sampler; the traces are compared with the states and step sizes the run really had"
BOUNDS = {"quick": "all histories of length 1..7 (tuning on and off), 5 schedules, 1..3 consecutive runs (all pairs of histories of length 3); 6 patterns of 40, 250 and 3000 iterations",
          "thorough": "all histories of length 1..11, 12 schedules, all pairs of histories of length 5 and triples of length 3; 6 patterns of 40, 250, 3000 and 12000 iterations"}
SCHED = [(0, 1), (0, 0), (2, 1), (1, 2), (3, 3), (0, 3), (5, 1), (4, 2), (1, 4), (0, 5), (6, 0), (2, 2)]


class FlatForward(S.ForwardOperator):
    """Predictions follow X so that the posterior can be steered; no gradient."""

    def __init__(self, n):
        super().__init__(np.zeros(n), 1.0, "synthesis", nparams=n)
        self.points = []

    def forward(self, X):
        self.points.append(np.array(X))
        return np.array(X)

    def calc_gradg(self, preds):
        return np.zeros(self.nparams)


class FlatPrior(S.L1):
    def __init__(self):
        super().__init__("synthesis", None, None, 1.0)

    def prior(self, X):
        return 0.0

    def proxf(self, X):
        return X


def cases(tier):
    q = tier == "quick"
    out = []
    for n in range(1, 8 if q else 12):
        for tune in (False, True):
            for sched in SCHED[: 5 if q else 12]:
                out.append({"kind": "hist", "n": n, "tune": tune, "sched": sched})
    for tune in (False, True):
        for reps, n in ((2, 3), (3, 2)) if q else ((2, 5), (3, 3)):
            out.append({"kind": "runs", "reps": reps, "n": n, "tune": tune})
    for tune in (False, True):
        for n in (40, 250, 3000) if q else (40, 250, 3000, 12000):
            for sched in SCHED[:4]:
                out.append({"kind": "long", "n": n, "tune": tune, "sched": sched})
    out.append({"kind": "none", "tune": True})
    out.append({"kind": "none", "tune": False})
    return out


def noise(n, i):
    return [1.1 + 0.3 * math.sin(1 + i), -0.7 + 0.2 * math.cos(i)][:n]


def script(hist):
    """Draws that force ``hist``: accept with a tiny draw; reject by proposing outwards with a draw near 1."""
    g, u = [], []
    for i, a in enumerate(hist):
        z = noise(2, i)
        g += z if not a else [-v for v in z]
        u.append(1e-200 if a else 1 - 1e-9)
    return g, u


def one_run(m, fwd, start, hist, nburn, ngap, rec, label):
    """Run m (already built) once; returns nothing, raises on disagreement."""
    n = len(hist)
    g, u = script(hist)
    fwd.points.clear()
    d0 = float(m.delta)
    S.observe("pxmala", None_prob, S.Cfg(), g, u, start=start, m=m)
    # proposals in order: the evaluations other than the start point
    props = [p for p in fwd.points[1:]]
    if len(props) != n:  # the code may evaluate the forward operator more than once per point
        uniq = []
        for p in fwd.points:
            if not any(np.array_equal(p, q) for q in uniq):
                uniq.append(p)
        props = uniq[1:]
    if len(props) != n:
        return  # step sizes cannot be read off
    X = np.array(start)
    acc, used = [], []
    for i, p in enumerate(props):
        z = np.array(g[2 * i : 2 * i + 2])
        r = (p - X) / z
        used.append(float(np.mean(r)) ** 2 / 2)
        nxt = props[i + 1] if i + 1 < n else None
        # accepted iff the next proposal departs from p along its noise
        if nxt is not None:
            z2 = np.array(g[2 * i + 2 : 2 * i + 4])
            rp, rx = (nxt - p) / z2, (nxt - X) / z2
            a = abs(rp[0] - rp[1]) < abs(rx[0] - rx[1])
        else:
            a = bool(np.array_equal(m.chain[-1], p)) if (n - 1 - nburn) % max(ngap, 1) == 0 else hist[i]
        acc.append(int(a))
        if a:
            X = p
    got = [int(a) for a in m.acceptance_trace]
    if got != acc:
        raise Violation(f"{label}: acceptance trace {got}, but the proposals accepted were {acc}")
    dt = [float(d) for d in m.deltas_trace]
    want = n + 1 if m.tune_delta else 1
    if len(dt) != want:
        raise Violation(f"{label}: step-size trace has {len(dt)} entries after {n} iterations, expected {want}")
    for i, d in enumerate(used):
        t = dt[i] if m.tune_delta else dt[0]
        if abs(t - d) > 1e-7 * d:
            raise Violation(f"{label}: iteration {i} used step size {d}, the trace says {t}")
    if abs(dt[-1] - m.delta) > 1e-9 * m.delta:
        raise Violation(f"{label}: the trace ends with {dt[-1]}, the next iteration would use {m.delta}")
    if abs(dt[0] - d0) > 1e-9 * d0:
        raise Violation(f"{label}: the trace starts with {dt[0]}, the run started with {d0}")
    rec.trace()
    rec.step(n)
    rec.state(tuple(acc), tuple(round(d, 12) for d in dt), nburn, ngap)
    rec.outcome(tuple(acc), len(dt))


class None_prob:
    name = "flat"
    start = None


START = np.array([6.0, -5.0])


def build(n, nburn, ngap, tune):
    ns = (n - 1 - nburn) // max(ngap, 1) + 1
    iters = nburn + (ns - 1) * max(ngap, 1) + 1
    fwd = FlatForward(2)
    par = S.PxMCMCParams(lmda=3.0, delta=0.01, mu=1.0, nsamples=ns, nburn=nburn, ngap=ngap, complex=False, verbosity=0,
                         track=["chain"])
    return S.PxMALA(fwd, FlatPrior(), par, tune_delta=tune), fwd, iters


def run_case(case, rec):
    tune = case["tune"]
    if case["kind"] == "none":
        m, fwd, _ = build(1, 0, 1, tune)
        m.nsamples = 0
        m.run(START.copy())
        if list(m.acceptance_trace) or [float(d) for d in m.deltas_trace] != [0.01]:
            raise Violation(f"no samples requested: traces {m.acceptance_trace}, {m.deltas_trace}")
        return
    if case["kind"] == "hist":
        nb, gap = case["sched"]
        if nb >= case["n"]:
            return
        for hist in itertools.product((True, False), repeat=case["n"]):
            m, fwd, iters = build(case["n"], nb, gap, tune)
            h = hist[:iters]
            one_run(m, fwd, START.copy(), h, nb, gap, rec, f"pxmala tune={tune} nburn={nb} ngap={gap} history={[int(x) for x in h]}")
        rec.sample({"history": [int(x) for x in h], "tune": tune, "nburn": nb, "ngap": gap, "deltas": [float(d) for d in m.deltas_trace]})
        return
    if case["kind"] == "long":
        n, (nb, gap) = case["n"], case["sched"]
        for hist in ([True] * n, [False] * n, [i % 2 == 0 for i in range(n)], [i % 3 == 1 for i in range(n)], [i % 5 != 2 for i in range(n)], [(i // 7) % 2 == 0 for i in range(n)]):
            m, fwd, iters = build(n, nb, gap, tune)
            one_run(m, fwd, START.copy(), hist[:iters], nb, gap, rec, f"pxmala tune={tune} nburn={nb} ngap={gap}, run of {iters} iterations")
        return
    hs = list(itertools.product((True, False), repeat=case["n"]))
    for combo in itertools.product(hs, repeat=case["reps"]):
        m, fwd, iters = build(case["n"], 0, 1, tune)
        for k, h in enumerate(combo):
            one_run(m, fwd, START.copy(), h, 0, 1, rec, f"pxmala tune={tune}, run {k + 1} of one sampler, histories {combo}")
