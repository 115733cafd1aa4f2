"""C10: start points are honoured or refused."""
import itertools

import numpy as np

from mc import rng, sampler as S
from mc.core import Violation

PROPERTY = "C10"
LEVEL = "model_checking"
ASSUMES = ["with zero noise, no gradient and prox = identity every sampler stays where it is, so the first saved sample is the start point"]
RULE = "every combination of sampler, parameter type, number of parameters and start-point form (shape, dtype, memory layout, container); plus Laplace draws over an alphabet"
BOUNDS = {"quick": "3 samplers x real/complex x 1..4, 60, 1000 and 3000 parameters x 40 forms; all Laplace vectors over a 3-letter alphabet for <= 3 parameters",
          "thorough": "3 samplers x real/complex x 1..7, 60, 1000 and 3000 parameters x 40 forms; all Laplace vectors over a 4-letter alphabet for <= 4 parameters"}


class Still(S.ForwardOperator):
    def __init__(self, n, cplx):
        super().__init__(np.zeros(n, dtype=complex if cplx else float), 1.0, "synthesis", nparams=n)
        self.points = []

    def forward(self, X):
        self.points.append(np.array(X))
        return np.array(X)

    def calc_gradg(self, preds):
        return np.zeros(self.nparams)


class StillPrior(S.L1):
    def __init__(self):
        super().__init__("synthesis", None, None, 1.0)

    def prior(self, X):
        return float(np.sum(np.abs(X)))

    def proxf(self, X):
        return X


def cases(tier):
    q = tier == "quick"
    out = []
    for algo in ("myula", "skrock", "pxmala"):
        for cplx in (False, True):
            for n in range(1, 5 if q else 8):
                out.append({"kind": "forms", "algo": algo, "cplx": cplx, "n": n})
            for n in (60, 1000, 3000):
                out.append({"kind": "forms", "algo": algo, "cplx": cplx, "n": n})
                out.append({"kind": "none", "algo": algo, "cplx": cplx, "n": n, "alpha": 3 if q else 4})
            for n in range(1, 4 if q else 5):
                out.append({"kind": "none", "algo": algo, "cplx": cplx, "n": n, "alpha": 3 if q else 4})
    return out


def base(n, cplx):
    x = np.array([0.7 - 0.45 * k + 0.01 * k * k for k in range(n)])
    return x + 1j * (0.2 + 0.3 * np.arange(n)) if cplx else x


def good(n, cplx):
    x = base(n, cplx)
    yield "array", x
    big = np.zeros(2 * n, dtype=x.dtype)
    big[::2] = x
    yield "strided view", big[::2]
    yield "reversed view", np.array(x[::-1])[::-1]
    ro = x.copy()
    ro.flags.writeable = False
    yield "read-only", ro
    yield "integers", np.arange(1, n + 1)
    yield "zeros", np.zeros(n, dtype=x.dtype)
    yield "repeated", np.full(n, 0.25, dtype=x.dtype)
    yield "float32", x.real.astype(np.float32)
    yield "large", 1e8 * x
    yield "fortran column", np.asfortranarray(np.stack([x, x], axis=1))[:, 0]
    if cplx:
        yield "real for complex", x.real.copy()
        yield "imaginary", 1j * x.real


def bad(n, cplx):
    x = base(n, cplx)
    for k in (0, n - 1, n + 1, 2 * n, 3 * n + 1):
        if k != n:
            yield f"length {k}", np.zeros(k)
    for shp in ((n, 1), (1, n), (n, min(n, 9)), (2, n), (n, 1, 1), (), (1, 1)):
        yield f"shape {shp}", np.zeros(shp)
    yield "list", list(x)
    yield "tuple", tuple(x)
    yield "nested list", [list(x)]
    yield "float", 0.5
    yield "int", 1
    yield "zero", 0
    yield "numpy scalar", np.float64(0.3)
    yield "string", "x" * n
    yield "dict", {i: 0.0 for i in range(n)}
    yield "empty list", []
    yield "empty tuple", ()
    yield "False", False
    yield "generator", (v for v in x)
    yield "range", range(n)
    yield "matrix", np.matrix(x)


def build(algo, n, cplx, ns=2):
    fwd = Still(n, cplx)
    par = S.PxMCMCParams(lmda=0.5, delta=0.1, s=3, mu=1.0, nsamples=ns, nburn=0, ngap=1, complex=cplx, verbosity=0, track=["chain"])
    pr = StillPrior()
    return (S.PxMALA(fwd, pr, par, tune_delta=False) if algo == "pxmala" else S.CLS[algo](fwd, pr, par)), fwd


def run_case(case, rec):
    algo, n, cplx = case["algo"], case["n"], case["cplx"]
    w = n * (2 if cplx else 1)
    head = f"{algo}, {n} {'complex' if cplx else 'real'} parameters"
    u = [0.5, 0.5] if algo == "pxmala" else []
    if case["kind"] == "forms":
        for name, x in good(n, cplx):
            m, fwd = build(algo, n, cplx)
            keep = np.array(x)
            try:
                S.observe(algo, NoProb, S.Cfg(), [0.0] * (2 * w), u, start=x, m=m)
            except Violation:
                raise
            except Exception as e:
                raise Violation(f"{head}: valid start point ({name}) refused: {type(e).__name__}: {e}")
            for j in range(2):
                if not S.close(m.chain[j], keep, 1e-6 if keep.dtype == np.float32 else 1e-12):
                    raise Violation(f"{head}: started from {keep!r} ({name}), chain is at {m.chain[j]!r} after {j + 1} motionless steps")
            if not any(S.same(p, keep) for p in fwd.points):
                raise Violation(f"{head}: the forward operator was never evaluated at the start point ({name})")
            rec.trace()
            rec.step(2)
            rec.state(algo, n, cplx, name)
            rec.outcome("honoured", n, cplx)
        for name, x in bad(n, cplx):
            m, fwd = build(algo, n, cplx)
            script = rng.Script([0.0] * 50, [0.5] * 50, [0.5] * 50)
            try:
                with rng.scripted(script):
                    m.run(x)
            except (TypeError, ValueError):
                pass
            except Exception as e:
                raise Violation(f"{head}: bad start point ({name}) raised {type(e).__name__}: {e}")
            else:
                raise Violation(f"{head}: bad start point ({name}) accepted")
            if any(script.used.values()):
                raise Violation(f"{head}: bad start point ({name}) refused only after drawing {script.used}")
            rec.trace()
            rec.step()
            rec.state(algo, n, cplx, name)
            rec.outcome("refused", n, cplx)
        rec.sample({"algo": algo, "n": n, "complex": cplx})
        return
    letters = [0.4, -1.7, 0.05, 3.2][: case["alpha"]]
    for word in itertools.product(letters, repeat=2 if n > 9 else w if not cplx or n < 3 else n + 1):
        word = list(word) + [0.1 * (k % 97) - 0.33 + 1e-4 * k for k in range(w - len(word))]
        m, fwd = build(algo, n, cplx)
        S.observe(algo, NoProb, S.Cfg(), [0.0] * (2 * w), u, l=word, start=None, m=m)
        f = np.array(word)
        opts = [f] if not cplx else [f[:n] + 1j * f[n:], f[n:] + 1j * f[:n], f[0::2] + 1j * f[1::2]]
        if not any(S.close(m.chain[0], o, 1e-12) for o in opts):
            raise Violation(f"{head}: Laplace draws {word}, chain starts at {m.chain[0]!r}")
        rec.trace()
        rec.step(2)
        rec.state("laplace", algo, n, cplx, tuple(word))
        rec.outcome("laplace", tuple(word))


class NoProb:
    name = "still"
