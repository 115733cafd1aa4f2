"""C32: custom components plug in through the documented interface."""
import itertools

import numpy as np
from scipy import sparse

from mc import rng
from mc.core import Violation
from pxmcmc.forward import ForwardOperator
from pxmcmc.measurements import Identity, Measurement
from pxmcmc.mcmc import MYULA, PxMALA, PxMCMC, PxMCMCParams, SKROCK
from pxmcmc.prior import L1
from pxmcmc.transforms import IdentityTransform, Transform

PROPERTY = "C32"
LEVEL = "model_checking"
KIND = "history"
ASSUMES = ["custom components implement forward/adjoint, the four transform methods, prior/proxf or run, as documented"]
RULE = ("every way of giving an operator its transform, measurement and parameter count (argument, class attribute, set before or after the base constructor), every setting; "
        "every sampler with each component replaced by a minimal user-defined one, run on the same scripted draws as with the built-in one; every base-class method that users must implement")
BOUNDS = {"quick": "4^3 ways x 2 settings; 3 samplers x 2 settings x 4 x 3 component choices (own operator: plain, with a dense inverse covariance, derived without transform and measurement; own prior: plain, derived) x 3 sizes x real/complex, 3 iterations",
          "thorough": "4^3 ways x 2 settings; 3 samplers x 2 settings x 4 x 3 component choices (own operator: plain, with a dense inverse covariance, derived without transform and measurement; own prior: plain, derived) x 6 sizes x real/complex, 8 iterations"}
SAMPLERS = {"MYULA": MYULA, "PxMALA": PxMALA, "SKROCK": SKROCK}
WAYS = ("argument", "class", "before", "after")


class MyMeasurement(Measurement):
    """Scales by 2: only what a user has to implement."""

    def forward(self, X):
        return 2.0 * X

    def adjoint(self, Y):
        return 2.0 * Y


class MyTransform(Transform):
    """Multiplication by 1j: inverse and adjoint are conjugate."""

    def forward(self, X):
        return -1j * X

    def inverse(self, X):
        return 1j * X

    def forward_adjoint(self, X):
        return 1j * X

    def inverse_adjoint(self, X):
        return -1j * X


class MyPrior:
    """Gaussian prior; no base class."""

    def __init__(self, T):
        self.T = T

    def prior(self, X):
        return float(np.sum(np.abs(X) ** 2) / 2)

    def proxf(self, X):
        return X / (1 + self.T)


class PlainPrior(MyPrior):
    """The L1 prior written by a user."""

    def prior(self, X):
        return np.sum(np.abs(X))

    def proxf(self, X):
        m = np.abs(X)
        return X * np.where(m > self.T, 1 - self.T / np.where(m == 0, 1, m), 0)


class PlainOperator:
    """No base class: only what the samplers are documented to use."""

    def __init__(self, data, sig, n, scale):
        self.data, self.nparams, self.scale = data, n, scale
        self.invcov = sparse.identity(len(data)) / sig ** 2

    def forward(self, X):
        return self.scale * X

    def calc_gradg(self, preds):
        return np.conj(self.scale) * (self.invcov @ (preds - self.data))


class DenseOperator(PlainOperator):
    """The inverse covariance as a plain array."""

    def __init__(self, data, sig, n, scale):
        super().__init__(data, sig, n, scale)
        self.invcov = np.eye(len(data)) / sig ** 2


class OwnOperator(ForwardOperator):
    """Derived from the base class, which only handles the data: no transform, no measurement."""

    def __init__(self, data, sig, n, scale, setting):
        super().__init__(data, sig, setting)
        self.nparams, self.scale = n, scale

    forward = PlainOperator.forward
    calc_gradg = PlainOperator.calc_gradg


class OwnL1(L1):
    """Derived from the built-in prior with its own norm and prox."""

    prior = PlainPrior.prior
    proxf = PlainPrior.proxf


def cases(tier):
    q = tier == "quick"
    out = [{"kind": "base"}]
    out += [{"kind": "op", "ways": w, "setting": s} for w in itertools.product(WAYS, repeat=3) for s in ("analysis", "synthesis")]
    out += [{"kind": "run", "sampler": s, "setting": t, "choice": list(c), "n": n, "complex": cx, "iters": 3 if q else 8}
            for s in SAMPLERS for t in ("analysis", "synthesis") for c in itertools.product(range(4), range(3)) for n in ((1, 2, 3) if q else range(1, 7)) for cx in (0, 1)]
    return out


def base(rec):
    calls = [("Measurement.forward", lambda: Measurement(2, 3).forward(np.ones(3))), ("Measurement.adjoint", lambda: Measurement(2, 3).adjoint(np.ones(2)))]
    t = Transform()
    calls += [(f"Transform.{n}", getattr(t, n)) for n in ("forward", "inverse", "forward_adjoint", "inverse_adjoint")]
    op = ForwardOperator(np.ones(2), 1.0, "synthesis", IdentityTransform(), Identity(2, 2), nparams=2)
    p = PxMCMC(op, L1("synthesis", None, None, 0.1), PxMCMCParams(nsamples=1, verbosity=0))
    calls += [("PxMCMC.run", p.run), ("PxMCMC.run with a start point", lambda: p.run(np.zeros(2)))]
    for name, f in calls:
        try:
            r = f()
        except NotImplementedError:
            pass
        else:
            raise Violation(f"{name} of the base class returned {r!r} instead of raising NotImplementedError")
        rec.step()
        rec.state(name)
    m = Measurement(2, 3)
    if (m.ndata, m.npix) != (2, 3):
        raise Violation(f"Measurement(2, 3) has ndata {m.ndata}, npix {m.npix}")
    rec.trace()
    rec.outcome("base")


class Empty:
    """A component may be empty as a container (nothing cached yet, say)."""

    def __len__(self):
        return 0


class EmptyTransform(Empty, MyTransform):
    pass


class EmptyMeasurement(Empty, MyMeasurement):
    pass


def operator(case, rec):
    for T, M in ((MyTransform, MyMeasurement), (EmptyTransform, EmptyMeasurement)):
        operator_of(case, rec, T(), M(3, 3))


def operator_of(case, rec, T, M):
    (wt, wm, wn), setting = case["ways"], case["setting"]
    N = 3
    T.ncoefs = T.L = 7  # the user's own business
    given = {"transform": (wt, T), "measurement": (wm, M), "nparams": (wn, N)}
    attrs = {k: v for k, (w, v) in given.items() if w == "class"}

    def init(self, data, sig):
        for k, (w, v) in given.items():
            if w == "before":
                setattr(self, k, v)
        ForwardOperator.__init__(self, data, sig, setting, **{k: v for k, (w, v) in given.items() if w == "argument"})
        for k, (w, v) in given.items():
            if w == "after":
                setattr(self, k, v)

    Op = type("Op", (ForwardOperator,), {"__init__": init, **attrs})
    data = np.array([1.0, -2.0, 0.5])
    op = Op(data, 0.5)
    if op.transform is not T or op.measurement is not M or op.nparams != N:
        raise Violation(f"an operator given its transform by {wt}, measurement by {wm} and parameter count by {wn} has {op.transform}, {op.measurement}, {op.nparams}")
    A = 2.0 * (1j if setting == "synthesis" else 1)
    for i in range(3):
        x = np.eye(3)[i] * (1 + 2j)
        y = op.forward(x)
        g = op.calc_gradg(y)
        rec.step(2)
        if not np.allclose(y, A * x) or not np.allclose(g, np.conj(A) * (y - data) / 0.25):
            raise Violation(f"{setting} operator with user components ({case['ways']}): forward or gradient is wrong at {x}")
    rec.trace()
    rec.state(repr(case))
    rec.outcome(setting)


def run(case, rec):
    n, cx, iters = case["n"], bool(case["complex"]), case["iters"]
    data = np.array([1.0, -0.5, 2.0, 0.25, -1.0, 0.75])[:n] * (1 + 0.5j if cx else 1)
    sig, T = 0.5, 0.05
    scale = 2.0 * (1j if cx and case["setting"] == "synthesis" else 1)
    tr = MyTransform() if cx and case["setting"] == "synthesis" else IdentityTransform()
    built = ForwardOperator(data, sig, case["setting"], tr, MyMeasurement(n, n), nparams=n)
    oi, pi = case["choice"]
    one = [lambda: built, lambda: PlainOperator(data, sig, n, scale), lambda: DenseOperator(data, sig, n, scale),
           lambda: OwnOperator(data, sig, n, scale, case["setting"])][oi]()
    pr = [lambda: L1("synthesis", None, None, T), lambda: PlainPrior(T), lambda: OwnL1(case["setting"], None, None, T)][pi]()
    res = []
    for op, prior in ((built, L1("synthesis", None, None, T)), (one, pr)):
        params = PxMCMCParams(lmda=0.1, delta=0.02, s=2, mu=0.5, nsamples=iters, nburn=0, ngap=1, complex=cx, verbosity=0, track=["logposterior", "L2", "prior", "chain", "predictions"])
        s = SAMPLERS[case["sampler"]](op, prior, params)
        g = [((7 * k * k + 3 * k) % 11 - 5) * 0.3 for k in range(2 * n * iters)]
        u = [((5 * k + 2) % 7 + 0.5) / 8 for k in range(iters)]
        with rng.scripted(rng.Script(g=g, u=u)):
            s.run(np.full(n, 0.3) + (0.2j if cx else 0))
        rec.step(iters)
        res.append((s.chain, s.logPi, s.L2s, s.priors, s.preds))
    for name, a, b in zip(("chain", "log posteriors", "misfits", "priors", "predictions"), *res):
        if a.shape != b.shape or not np.allclose(a, b, rtol=1e-10, atol=1e-12):
            raise Violation(f"{case['sampler']} ({case['setting']}, {'complex' if cx else 'real'}, n={n}): the {name} differ between built-in components and user-defined ones that compute the same (operator {'own' if case['choice'][0] else 'built-in'}, prior {'own' if case['choice'][1] else 'built-in'})")
    # a prior that is not L1
    params = PxMCMCParams(lmda=0.1, delta=0.02, s=2, mu=0.5, nsamples=2, nburn=0, ngap=1, complex=cx, verbosity=0)
    s = SAMPLERS[case["sampler"]](one, MyPrior(0.1), params)
    with rng.scripted(rng.Script(g=[0.1 * k for k in range(4 * n)], u=[0.3, 0.6])):
        s.run(np.full(n, 0.3) + (0.2j if cx else 0))
    if not np.allclose(s.priors, [np.sum(np.abs(c) ** 2) / 2 for c in s.chain]):
        raise Violation(f"{case['sampler']}: the tracked prior is not the user's prior")
    rec.trace(2)
    rec.state(repr(case))
    rec.outcome(np.round(res[1][0], 8).tobytes())
    rec.sample(case)


def run_case(case, rec):
    if case["kind"] == "base":
        base(rec)
    elif case["kind"] == "op":
        operator(case, rec)
    else:
        run(case, rec)
