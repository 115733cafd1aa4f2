"""C24: credible intervals and regions match the samples."""
import itertools
import math

import numpy as np

from mc.core import Violation
from pxmcmc.uncertainty import credible_interval_range, credible_region_threshold, in_credible_region

PROPERTY = "C24"
LEVEL = "model_checking"
ASSUMES = ["sample quantiles are linearly interpolated order statistics (numpy's default)"]
RULE = "every sample multiset and order over the alphabet x every alpha; columns combined freely to show that parameters do not mix"
BOUNDS = {"quick": "all chains of 1..5 samples over 4 values (1 parameter), all pairs of 3-sample columns, 9 alphas; all log-posterior vectors of 1..6 over 4 values; chains up to 20000 samples and 3000 parameters",
          "thorough": "all chains of 1..7 samples over 4 values, all triples of 3-sample columns, 9 alphas; all log-posterior vectors of 1..8 over 4 values; chains up to 20000 samples and 3000 parameters"}
VALS = [-1.5, 0.0, 0.2, 3.0]
ALPHAS = [0.0, 0.01, 0.05, 0.1, 0.25, 0.5, 0.68, 0.9, 1.0]
LOGS = [-1000.0, -12.5, -3.0, 2.0]


def cases(tier):
    q = tier == "quick"
    out = []
    for n in range(1, 6 if q else 8):
        for f in range(4):
            out.append({"kind": "one", "n": n, "first": f})
    for f in itertools.product(range(4), repeat=3):
        out.append({"kind": "cols", "col": f, "k": 2 if q else 3})
    for n in range(1, 7 if q else 9):
        for f in range(4):
            out.append({"kind": "region", "n": n, "first": f})
    out.append({"kind": "wide"})
    return out


def quantile(v, p):
    """Linear interpolation between order statistics."""
    s = sorted(float(x) for x in v)
    h = (len(s) - 1) * p
    i = int(math.floor(h + 1e-12))
    f = h - i
    if i >= len(s) - 1:
        return s[-1]
    return s[i] + max(f, 0.0) * (s[i + 1] - s[i])


def width(v, a):
    return quantile(v, 1 - a / 2) - quantile(v, a / 2)


def run_case(case, rec):
    if case["kind"] == "one":
        n = case["n"]
        for rest in itertools.product(VALS, repeat=n - 1):
            col = (VALS[case["first"]],) + rest
            x = np.array(col)[:, None]
            prev = None
            for a in ALPHAS:
                keep = x.copy()
                r = np.asarray(credible_interval_range(x, a))
                rec.step()
                if r.shape != (1,) or not abs(r[0] - width(col, a)) <= 1e-9:
                    raise Violation(f"credible_interval_range({col}, alpha={a}) = {r!r}, expected {width(col, a)}")
                if r[0] < -1e-12 or (prev is not None and r[0] > prev + 1e-12):
                    raise Violation(f"credible_interval_range({col}) negative or growing with alpha at {a}")
                prev = r[0]
                if not np.array_equal(x, keep):
                    raise Violation("credible_interval_range changed the chain")
                rec.state(col, a)
            if not abs(np.asarray(credible_interval_range(x))[0] - width(col, 0.05)) <= 1e-9:
                raise Violation("credible_interval_range: default alpha")
            rec.trace()
            rec.outcome(round(float(r[0]), 9), col)
    elif case["kind"] == "cols":
        base = [VALS[i] for i in case["col"]]
        allc = list(itertools.product(VALS, repeat=3))
        for others in itertools.product(allc, repeat=case["k"] - 1) if case["k"] == 2 else ((a, b) for a in allc for b in allc[:: 5]):
            x = np.array([base] + [list(o) for o in others]).T
            for a in (0.05, 0.5, 1.0):
                for nm, y in (("", x), (" (fortran order)", np.asfortranarray(x)), (" (reversed samples)", x[::-1])):
                    r = np.asarray(credible_interval_range(y, a))
                    rec.step()
                    want = [width(x[:, c], a) for c in range(x.shape[1])]
                    if r.shape != (x.shape[1],) or not np.allclose(r, want, rtol=1e-9, atol=1e-9):
                        raise Violation(f"credible_interval_range of columns {x.T.tolist()}{nm}, alpha={a}: {r!r}, expected {want}")
            rec.trace()
            rec.state(case["col"], others)
            rec.outcome(np.round(r, 9).tobytes())
    elif case["kind"] == "region":
        n = case["n"]
        for rest in itertools.product(LOGS, repeat=n - 1):
            lp = np.array((LOGS[case["first"]],) + rest)
            for a in ALPHAS:
                keep = lp.copy()
                t = credible_region_threshold(lp, a)
                want = quantile(lp, a)
                rec.step()
                if np.shape(t) != () or not abs(t - want) <= 1e-9 * max(1, abs(want)):
                    raise Violation(f"credible_region_threshold({lp.tolist()}, alpha={a}) = {t}, expected {want}")
                if not np.array_equal(lp, keep):
                    raise Violation("credible_region_threshold changed the log posteriors")
                ins = [bool(in_credible_region(v, t)) for v in lp]
                exp = [bool(v >= t) for v in lp]
                if ins != exp:
                    raise Violation(f"in_credible_region of {lp.tolist()} at threshold {t}: {ins}, expected {exp}")
                # below the maximum only rounding can lift the interpolated threshold above it
                if not in_credible_region(lp.max(), min(t, lp.max())):
                    raise Violation(f"the most probable sample of {lp.tolist()} is outside the region at alpha={a}")
                rec.state(lp.tobytes(), a)
            if not abs(credible_region_threshold(lp) - quantile(lp, 0.05)) <= 1e-9 * max(1, abs(quantile(lp, 0.05))):
                raise Violation("credible_region_threshold: default alpha")
            rec.trace()
            rec.outcome(tuple(ins))
    else:
        for ns, npar in ((1, 1), (2, 7), (11, 3), (100, 12), (101, 1), (1000, 4), (3000, 3), (20000, 2), (6, 3000)):
            i = np.arange(ns * npar).reshape(ns, npar)
            x = np.sin(1 + 2.3 * i) * (1 + np.arange(npar)) + 5 * np.arange(npar)
            for a in ALPHAS:
                r = np.asarray(credible_interval_range(x, a))
                want = [width(x[:, c], a) for c in range(npar)]
                rec.step()
                if r.shape != (npar,) or not np.allclose(r, want, rtol=1e-9, atol=1e-9):
                    raise Violation(f"credible_interval_range of a {ns}x{npar} chain, alpha={a}: {r!r}, expected {want}")
                t = credible_region_threshold(x[:, 0], a)
                if abs(t - quantile(x[:, 0], a)) > 1e-9:
                    raise Violation(f"credible_region_threshold of {ns} log posteriors, alpha={a}: {t}")
                rec.state(ns, npar, a)
            rec.trace()
            rec.outcome(ns, npar)
        for f in (1e-14, 1e-5, 1e9):
            for a in ALPHAS:
                x = f * np.sin(1 + 2.3 * np.arange(40).reshape(20, 2))
                r = np.asarray(credible_interval_range(x, a))
                if not np.allclose(r, [width(x[:, c], a) for c in (0, 1)], rtol=1e-9, atol=1e-12 * f):
                    raise Violation(f"credible_interval_range of samples of size {f}, alpha={a}: {r!r}")
                t = credible_region_threshold(x[:, 0], a)
                if abs(t - quantile(x[:, 0], a)) > 1e-9 * f:
                    raise Violation(f"credible_region_threshold of log posteriors of size {f}, alpha={a}: {t}")
                rec.step()
        # samples of no probability at all, where the quantile is one of the samples
        for lp, a, want in (([-np.inf, -3.0, 2.0], 0.5, -3.0), ([2.0, -3.0, -np.inf, 0.5, -np.inf], 0.5, -3.0),
                            ([2.0, -3.0, -np.inf, 0.5, -np.inf], 0.75, 0.5), ([-1.0, -np.inf, 4.0], 1.0, 4.0)):
            t = credible_region_threshold(np.array(lp), a)
            if t != want:
                raise Violation(f"credible_region_threshold({lp}, alpha={a}) = {t}, expected {want}")
            rec.step()
        # close to the threshold the comparison is exact
        for t, up in itertools.product((-1e8, -1000.0, -3.25, 0.0, 1e-300, 2.0, 7e11), (True, False)):
            v = np.nextafter(t, np.inf if up else -np.inf)
            if bool(in_credible_region(v, t)) != up or bool(in_credible_region(np.float64(v), t)) != up:
                raise Violation(f"in_credible_region({v!r}, {t!r}) is {not up}")
            rec.step()
        for v, t in itertools.product(LOGS + [np.inf, -np.inf, 0.0], repeat=2):
            if bool(in_credible_region(v, t)) != (v >= t):
                raise Violation(f"in_credible_region({v}, {t})")
    rec.sample(case)
