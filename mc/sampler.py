"""Reference model of the samplers, and the driver that replays model traces on the code.

The model is an explicit state machine: state = (X, step size), one transition per
iteration, labelled with the noise vector and (PxMALA) the decision accept/reject.  It is
written from the published algorithms with dense linear algebra and shares no code with
the package.  ``conform`` turns a path of the model into a script of random draws, runs
the real sampler on it and compares every observable.
"""
import itertools
import math

import numpy as np

from mc.core import Violation
from mc import rng
from pxmcmc.forward import ForwardOperator
from pxmcmc.prior import L1
from pxmcmc.mcmc import MYULA, PxMALA, SKROCK, PxMCMCParams

EDGE = 1e-6
ETA = 0.05


# ----------------------------------------------------------------- problems
class Prob:
    """A posterior: data d = A X + noise(C), prior sum W|X| (or sum W|X|^2/2)."""

    def __init__(self, name, A, d, Cinv, W, T, cplx, prior="l1", start=None, scale=1.0):
        self.name = name
        self.scale = scale  # magnitude of the parameters
        self.A = np.asarray(A)
        self.d = np.asarray(d)
        self.Cinv = np.asarray(Cinv)
        self.W = np.asarray(W, dtype=float)
        self.T = T
        self.cplx = cplx
        self.kind = prior
        self.nd, self.n = self.A.shape
        self.start = np.asarray(start)

    # model side
    def forward(self, X):
        return self.A @ X

    def gradg(self, preds):
        g = self.A.conj().T @ (self.Cinv @ (preds - self.d))
        return g if self.cplx else g.real

    def prox(self, X):
        if self.kind == "l2":
            return X / (1 + self.T * self.W)
        if self.kind == "box":
            return np.clip(X, -1.0, 1.0)
        t = self.T * self.W
        a = np.abs(X)
        return np.array([0 * x if m <= s else x * ((m - s) / m) for x, m, s in zip(X, a, t)])

    def prior(self, X):
        if self.kind == "l2":
            return float(np.sum(self.W * np.abs(X) ** 2) / 2)
        if self.kind == "box":  # uniform on a box: infinite outside
            return 0.0 if np.all(np.abs(X) <= 1) else math.inf
        return float(np.sum(self.W * np.abs(X)))

    def L2(self, preds):
        r = self.d - preds
        return float((r.conj() @ (self.Cinv @ r)).real)


class HForward(ForwardOperator):
    """User-defined forward operator (documented extension point)."""

    def __init__(self, prob):
        cov = np.linalg.inv(prob.Cinv)
        diag = np.array_equal(cov, np.diag(np.diag(cov)))
        super().__init__(prob.d.copy(), np.sqrt(np.diag(cov)) if diag else cov, "synthesis", nparams=prob.n)
        self._p = prob

    def forward(self, X):
        return self._p.A @ X

    def calc_gradg(self, preds):
        return self._p.A.conj().T @ (self._p.Cinv @ (preds - self.data))


class HPrior(L1):
    """User-defined prior (documented extension point)."""

    def __init__(self, prob):
        super().__init__("synthesis", None, None, prob.T)
        self._p = prob

    def prior(self, X):
        return self._p.prior(X)

    def proxf(self, X):
        return self._p.prox(X)


def _mk():
    P = {}

    def add(*a, **k):
        pr = Prob(*a, **k)
        P[pr.name] = pr

    add("one", [[1.0]], [0.7], [[1.0]], [1.0], 0.2, False, start=[0.4])
    add("real2", [[1.0, 0.5], [-0.3, 0.8], [0.2, -1.1]], [0.5, -0.2, 1.0],
        np.diag([1.0, 0.5, 2.0]), [1.0, 0.6], 0.25, False, start=[0.9, -0.3])
    add("cov3", np.array([[1.0, 0.2, 0.0], [0.1, -0.7, 0.4], [0.5, 0.3, 0.9], [0.0, 1.0, -0.2]]),
        [1.0, 0.0, -0.5, 0.3],
        np.linalg.inv(np.array([[1.0, .3, 0, .1], [.3, 1.5, .2, 0], [0, .2, .8, .1], [.1, 0, .1, 1.2]])),
        [0.5, 1.0, 1.5], 0.1, False, start=[-0.2, 0.1, 0.6])
    add("smooth2", [[0.9, -0.4], [0.3, 1.2]], [0.1, 0.8], np.diag([1.0, 1.5]), [1.0, 2.0], 0.3, False,
        prior="l2", start=[0.5, 0.5])
    add("cplx2", [[1.0 + 0.2j, 0.5j], [-0.3, 0.8 - 0.6j], [0.1j, 0.4]], [0.5 + 0.1j, -0.2j, 0.3],
        np.diag([1.0, 0.5, 1.2]), [1.0, 0.7], 0.2, True, start=[0.3 - 0.5j, -0.4 + 0.2j])
    add("cplx1", [[0.8 - 0.3j], [0.2 + 0.9j]], [0.5, 0.4 - 0.7j], np.diag([1.0, 0.7]), [1.0], 0.3, True,
        start=[0.6 + 0.1j])
    # complex parameters, real data
    add("cplxreal", [[1.0, 0.5], [0.0, 1.0]], [0.5, -0.8], np.diag([1.0, 2.0]), [1.0, 1.0], 0.2, True,
        start=[0.2 + 0.3j, -0.6j])
    # real parameters observed through a complex operator
    add("realcplx", [[1.0 + 0.5j, -0.4], [0.3j, 0.9 - 0.8j]], [0.4 - 0.6j, 0.2 + 0.5j], np.diag([0.8, 1.3]),
        [1.0, 0.5], 0.15, False, start=[-0.7, 0.2])
    # real data and parameters, operator with complex dtype
    add("castcplx", np.array([[1.0, 0.3], [-0.2, 0.7]], dtype=complex), [0.4, -0.9], np.diag([1.0, 1.0]),
        [1.0, 1.0], 0.2, False, start=[0.1, 0.4])
    # integer data and start point
    add("ints", [[1.0, 0.4], [-0.6, 0.7], [0.2, 0.3]], np.array([1, -2, 0]), np.diag([1.0, 0.5, 2.0]), [1.0, 0.8], 0.2, False,
        start=np.array([1, -1]))
    # single-precision complex data, complex parameters that start real
    add("startreal", [[1.0 - 0.4j, 0.5j], [-0.3, 0.8 + 0.2j]], np.array([0.5 + 0.25j, -0.75j], dtype=np.complex64), np.diag([1.0, 0.7]),
        [1.0, 0.5], 0.2, True, start=[0.5, -0.25])
    return P


SCALES = {"tiny": ("real2", 1e-5), "tinyc": ("cplx2", 1e-4), "vast": ("cov3", 1e4)}


def _scaled():
    """The same posteriors in other units: parameters, step sizes and thresholds scale along."""
    P = {}
    for name, (of, c) in SCALES.items():
        p = PROBS[of]
        P[name] = Prob(name, p.A / c, p.d, p.Cinv, p.W / c, p.T * c * c, p.cplx, start=p.start * c, scale=c)
    return P


def scaled_cfg(name, cfg):
    """The configuration for problem ``name`` that corresponds to ``cfg`` for the one it is a copy of."""
    c = SCALES[name][1] ** 2
    d = Cfg(cfg)
    return dict(cfg, lmda=d.lmda * c, delta=d.delta * c)


def _big():
    """Many parameters; log posteriors around -1e6 (probabilities that underflow)."""
    P = {}
    for name, nd, n, cplx in (("wide", 40, 30, False), ("widec", 20, 12, True)):
        i, j = np.meshgrid(np.arange(nd), np.arange(n), indexing="ij")
        A = 0.3 * np.cos(1 + 1.3 * i * j + 0.7 * i) + (0.3j * np.sin(0.2 + 0.9 * i * j + j) if cplx else 0)
        d = np.sin(0.5 + 2.1 * np.arange(nd)) + (1j * np.cos(0.3 + 1.9 * np.arange(nd)) if cplx else 0)
        x = 0.8 * np.cos(0.1 + 2.7 * np.arange(n)) + (0.6j * np.sin(1 + 1.1 * np.arange(n)) if cplx else 0)
        P[name] = Prob(name, A, d, np.diag(0.6 + 0.05 * np.arange(nd)), 0.4 + 0.05 * np.arange(n), 0.2, cplx, start=x)
    p = PROBS["real2"]
    away = np.linalg.inv(p.Cinv) @ np.cross(p.A[:, 0], p.A[:, 1])  # data no parameters can explain
    P["far2"] = Prob("far2", p.A, p.d + 1500 * away, p.Cinv, p.W, p.T, False, start=p.start)
    return P


HUGE = ("huge", "hugec")


def _huge(name):
    """Thousands of parameters and hundreds of data."""
    cplx = name == "hugec"
    nd, n = (500, 900) if cplx else (700, 2200)
    i, j = np.meshgrid(np.arange(nd), np.arange(n), indexing="ij")
    A = (np.cos(1 + 1.3 * (i * j % 977) + 0.7 * i) + (1j * np.sin(0.2 + 0.9 * (i * j % 983) + j) if cplx else 0)) / 40
    d = np.sin(0.5 + 2.1 * np.arange(nd)) + (1j * np.cos(0.3 + 1.9 * np.arange(nd)) if cplx else 0)
    x = 0.8 * np.cos(0.1 + 2.7 * np.arange(n)) + (0.6j * np.sin(1 + 1.1 * np.arange(n)) if cplx else 0)
    return Prob(name, A, d, np.diag(0.6 + 0.7 * np.cos(np.arange(nd)) ** 2), 0.4 + 0.5 * np.sin(np.arange(n)) ** 2, 0.2, cplx, start=x)


class _Probs(dict):
    """Iterates over the small problems; the big ones can be looked up."""

    def __missing__(self, k):
        if k in HUGE and k not in BOX:
            BOX[k] = _huge(k)
        return BIG[k] if k in BIG else SCALED[k] if k in SCALED else BOX[k]


PROBS = _Probs(_mk())
BIG = _big()
SCALED = _scaled()
_r = PROBS["real2"]
BOX = {"box": Prob("box", _r.A, _r.d, _r.Cinv, _r.W, _r.T, False, prior="box", start=[0.9, -0.3])}
# data that say nothing (the samples are of the prior), a prior that says nothing, a start at zero
DULL = ("null", "nullc", "flat", "zero", "zeroc")
BOX["null"] = Prob("null", 0 * _r.A, 0 * _r.d, _r.Cinv, _r.W, _r.T, False, start=_r.start)
BOX["nullc"] = Prob("nullc", 0j * _r.A, 0j * _r.d, _r.Cinv, _r.W, _r.T, True, start=_r.start * (1 - 0.5j))
BOX["flat"] = Prob("flat", _r.A, _r.d, _r.Cinv, 0 * _r.W, _r.T, False, start=_r.start)
BOX["zero"] = Prob("zero", _r.A, _r.d, _r.Cinv, _r.W, _r.T, False, start=0.0 * _r.start)
BOX["zeroc"] = Prob("zeroc", _r.A, _r.d * 1j, _r.Cinv, _r.W, _r.T, True, start=0j * _r.start)

# noise alphabet: scalars are taken cyclically from these rows, so that no two entries of
# one vector coincide
ZROWS = [
    [0.35, -0.8, 1.1, 0.6, -0.25, 0.95],
    [-1.3, 0.55, -0.4, 1.7, 0.15, -0.65],
    [2.1, 1.4, -1.9, -0.5, 1.25, 0.45],
    [-0.05, -1.6, 0.75, -1.15, -0.9, 1.55],
]


def zvec(prob, k):
    """The k-th noise vector of the alphabet: flat scalars (2n for complex problems)."""
    m = prob.n * (2 if prob.cplx else 1)
    return ZROWS[k][:m]


def zlong(prob, i):
    """Deterministic noise for long horizons (iteration i)."""
    m = prob.n * (2 if prob.cplx else 1)
    return [1.6 * math.sin(1.0 + 2.399963 * (i * 7 + c) + 0.1 * c * c) for c in range(m)]


ASSIGN = ("reim", "imre", "inter")


def assemble(prob, flat, mode):
    flat = np.asarray(flat, dtype=float)
    if not prob.cplx:
        return flat
    n = prob.n
    if mode == "reim":
        return flat[:n] + 1j * flat[n:]
    if mode == "imre":
        return flat[n:] + 1j * flat[:n]
    return flat[0::2] + 1j * flat[1::2]


# ----------------------------------------------------------------- model
class Cfg(dict):
    """Run configuration; missing keys take the defaults below."""

    DEF = dict(lmda=0.4, delta=0.15, mu=1.3, s=3, nsamples=1, nburn=0, ngap=0, verbosity=0,
               track=("logposterior", "L2", "prior", "chain", "predictions"), tune=False)

    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError:
            if k in self.DEF:
                return self.DEF[k]
            raise AttributeError(k)


def n_iter(cfg):
    if cfg.nsamples == 0:
        return 0
    return int(cfg.nburn) + (cfg.nsamples - 1) * max(int(cfg.ngap), 1) + 1


def drift(prob, cfg, X):
    return (prob.prox(X) - X) / cfg.lmda - prob.gradg(prob.forward(X))


def logpost(prob, cfg, X):
    return -cfg.mu * prob.prior(X) - prob.L2(prob.forward(X)) / 2


def propose(prob, cfg, X, delta, z):
    return X + delta * drift(prob, cfg, X) + math.sqrt(2 * delta) * z


def logq(prob, cfg, X2, X1, delta):
    r = X2 - X1 - delta * drift(prob, cfg, X1)
    return -float(np.sum(np.abs(r) ** 2)) / (4 * delta)


def log_alpha(prob, cfg, X, Xp, delta):
    return (logpost(prob, cfg, Xp) + logq(prob, cfg, X, Xp, delta)
            - logpost(prob, cfg, X) - logq(prob, cfg, Xp, X, delta))


def tune(cfg, delta, i, accepted):
    f = 1 + (0.5 if accepted else -0.5) / (i + 1) ** 0.75
    return min(max(delta * f, 1e-8 * cfg.lmda), cfg.lmda / 2)


def _cheb(s, x):
    from numpy.polynomial import chebyshev as c

    co = [0.0] * s + [1.0]
    return c.chebval(x, co), c.chebval(x, c.chebder(co)) if s else 0.0


def skrock_step(prob, cfg, X, z):
    s, delta = cfg.s, cfg.delta
    w0 = 1 + ETA / s ** 2
    Ts, dTs = _cheb(s, w0)
    w1 = Ts / dTs
    noise = math.sqrt(2 * delta) * z
    prev2 = X
    prev = X + w1 / w0 * delta * drift(prob, cfg, X + s * w1 / 2 * noise) + s * w1 / w0 * noise
    for j in range(2, s + 1):
        r = _cheb(j - 1, w0)[0] / _cheb(j, w0)[0]
        mu, nu = 2 * w1 * r, 2 * w0 * r
        prev, prev2 = mu * delta * drift(prob, cfg, prev) + nu * prev + (1 - nu) * prev2, prev
    return prev


class Path:
    """A path of the model: states visited and the random draws that realise it."""

    def __init__(self, X0, delta):
        self.X = X0
        self.delta = delta
        self.states = []  # state after each iteration
        self.acc = []
        self.deltas = [delta]
        self.g = []
        self.u = []

    def fork(self):
        q = Path(self.X, self.delta)
        q.states = list(self.states)
        q.acc = list(self.acc)
        q.deltas = list(self.deltas)
        q.g = list(self.g)
        q.u = list(self.u)
        return q


def extend(algo, prob, cfg, path, flat, mode, decide=None, inplace=False):
    """One transition. ``decide``: None (not PxMALA), True/False.  Returns None if infeasible.

    With ``inplace`` the path itself grows (long runs); an infeasible decision leaves it as it was."""
    z = assemble(prob, flat, mode)
    i = len(path.states)
    q = path if inplace else path.fork()
    if algo == "myula":
        q.X = propose(prob, cfg, path.X, cfg.delta, z)
    elif algo == "skrock":
        q.X = skrock_step(prob, cfg, path.X, z)
    else:
        Xp = propose(prob, cfg, path.X, path.delta, z)
        la = log_alpha(prob, cfg, path.X, Xp, path.delta)
        old = path.delta
        if decide:
            if la < -600:
                return None
            u = math.exp(la) * (1 - EDGE) if la < 0 else 1 - 1e-12
            if la > -EDGE and la < EDGE:  # too close to certainty for the edge: take a lower draw
                u = 0.5
            q.X = Xp
        else:
            if la > -10 * EDGE:
                return None
            u = max(math.exp(la), 1e-290) * (1 + EDGE)
        q.u.append(u)
        q.acc.append(bool(decide))
        if cfg.tune:
            q.delta = tune(cfg, old, i, decide)
            q.deltas.append(q.delta)
    q.g += list(flat)
    q.states.append(q.X)
    return q


# ----------------------------------------------------------------- implementation side
CLS = {"myula": MYULA, "pxmala": PxMALA, "skrock": SKROCK}


def make_params(prob, cfg):
    return PxMCMCParams(lmda=cfg.lmda, delta=cfg.delta, s=cfg.s, mu=cfg.mu, nsamples=cfg.nsamples,
                        nburn=cfg.nburn, ngap=cfg.ngap, complex=prob.cplx, verbosity=cfg.verbosity,
                        track=list(cfg.track))


def build(algo, prob, cfg, params=None, fwd=None, prior=None):
    fwd = fwd or HForward(prob)
    prior = prior or HPrior(prob)
    params = params or make_params(prob, cfg)
    if algo == "pxmala":
        return PxMALA(fwd, prior, params, tune_delta=cfg.tune)
    return CLS[algo](fwd, prior, params)


def close(a, b, tol=1e-9, floor=1.0):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if a.dtype == object or b.dtype == object:
        return False
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return False
    scale = max(floor, float(np.max(np.abs(b))))
    return bool(np.all(np.abs(a - b) <= tol * scale))


ATTR = {"logposterior": "logPi", "L2": "L2s", "prior": "priors", "predictions": "preds", "chain": "chain"}


def expected(prob, cfg, path):
    step = max(int(cfg.ngap), 1)
    idx = [int(cfg.nburn) + j * step for j in range(cfg.nsamples)]
    S = [path.states[i] for i in idx]
    cd = complex if prob.cplx else float
    pd = complex if np.iscomplexobj(prob.d) else float
    preds = [prob.forward(x) for x in S]
    return {
        "chain": np.array(S).reshape(cfg.nsamples, prob.n).astype(cd),
        "predictions": (np.array(preds).reshape(cfg.nsamples, prob.nd)).astype(complex),
        "logposterior": np.array([logpost(prob, cfg, x) for x in S]),
        "L2": np.array([prob.L2(y) for y in preds]),
        "prior": np.array([prob.prior(x) for x in S]),
    }


def compare(algo, prob, cfg, path, m, only=None):
    """Compare what the sampler recorded with the model's path.  Returns a message or None."""
    exp = expected(prob, cfg, path)
    for name in cfg.track:
        if only and name not in only:
            continue
        if not hasattr(m, ATTR[name]):
            return f"{name} was tracked but is not there after the run"
        got = np.asarray(getattr(m, ATTR[name]))
        if got.shape != exp[name].shape:
            return f"{name}: shape {got.shape}, expected {exp[name].shape}"
        floor = prob.scale if name == "chain" else 1.0
        if not close(got, exp[name], floor=floor):
            bad = [j for j in range(len(got)) if not close(got[j], exp[name][j], floor=floor)]
            j = bad[0] if bad else 0
            return f"{name}: saved row {j} is {got[j]!r}, the model has {exp[name][j]!r}"
    if algo == "pxmala" and not (only and "acc" not in only):
        acc = [int(a) for a in m.acceptance_trace]
        if acc != [int(a) for a in path.acc]:
            return f"acceptance trace {acc}, the model has {[int(a) for a in path.acc]}"
    if algo == "pxmala" and not (only and "deltas" not in only):
        if not close(np.asarray(m.deltas_trace, float), np.asarray(path.deltas), 1e-9) or any(
            abs(a - b) > 1e-6 * abs(b) for a, b in zip(m.deltas_trace, path.deltas)
        ):
            return f"step sizes {list(m.deltas_trace)}, the model has {path.deltas}"
        if abs(m.delta - path.delta) > 1e-6 * path.delta:
            return f"step size after the run {m.delta}, the model has {path.delta}"
    return None


def run_on(algo, prob, cfg, path, start, m=None):
    script = rng.Script(path.g, path.u)
    m = m or build(algo, prob, cfg)
    with rng.scripted(script):
        m.run(start)
    left = {k: v for k, v in script.leftovers().items() if v}
    return m, left


_modes = {}


def mode_of(algo):
    """How the code assembles complex noise from scalar draws (an internal choice: any is fine)."""
    if algo not in _modes:
        prob, cfg = PROBS["cplx2"], Cfg(nsamples=1, track=("chain",))
        _modes[algo] = "reim"
        flat = [0.3, -0.2, 0.1, 0.25]
        for mode in ASSIGN:
            z = assemble(prob, flat, mode)
            X0 = prob.start.astype(complex)
            want = skrock_step(prob, cfg, X0, z) if algo == "skrock" else propose(prob, cfg, X0, cfg.delta, z)
            try:
                m = build(algo, prob, cfg)
                with rng.scripted(rng.Script(flat, [1e-250])):
                    m.run(X0)
            except Exception:
                break
            if close(m.chain[0], want):
                _modes[algo] = mode
                break
    return _modes[algo]


def alternatives(n):
    """Other runs of n iterations: (nsamples, nburn, ngap, verbosity, tracked)."""
    rest = ("chain", "logposterior")
    if n > 1:
        yield 1, n - 1, 1, 0, ("chain",)
        yield 2, 0, n - 1, 1, rest
        yield n - n // 2, n // 2, 0, 2, Cfg.DEF["track"]
    if n > 3:
        g = next(g for g in (2, 3, 5, 7, n - 2) if (n - 2) % g == 0)
        yield (n - 2) // g + 1, 1, g, 0, ("chain", "predictions")
    if n == 1:
        yield 1, 0, 5, 1, rest


def conform(algo, prob, cfg, actions, rec, only=None, start=None):
    """Replay one model path on the code.  ``actions``: list of (flat noise, decision).

    Returns the path, or None if the decisions are infeasible in the model.
    """
    start = prob.start if start is None else start
    path = Path(np.array(start, dtype=complex if prob.cplx else float), cfg.delta)
    mode = mode_of(algo) if prob.cplx else "reim"
    for flat, dec in actions:
        path = extend(algo, prob, cfg, path, flat, mode, dec, inplace=True)
        if path is None:
            return None
    try:
        m, left = run_on(algo, prob, cfg, path, np.array(start))
        msg = compare(algo, prob, cfg, path, m, only)
        for ns, nb, gap, verb, track in alternatives(len(actions)) if msg is None and not left and len(actions) < 1000 else ():
            cfg = Cfg(cfg, nsamples=ns, nburn=nb, ngap=gap, verbosity=verb, track=track)
            m, left = run_on(algo, prob, cfg, path, np.array(start))
            msg = compare(algo, prob, cfg, path, m, only)
            if msg is not None or left:
                break
        if msg is None and left:
            msg = f"random draws left over: {left} (the run stopped early or reused noise)"
    except rng.Exhausted as e:
        msg = f"the run went on past the end of the behaviour: {e}"
    except (rng.Unscripted, ArithmeticError, TypeError, ValueError, AttributeError, IndexError) as e:
        msg = f"the run raised {type(e).__name__}: {e}"
    if msg is None:
        rec.trace()
        rec.step(len(actions))
        for k, x in enumerate(path.states):
            rec.state(algo, prob.name, cfg.lmda, cfg.mu, cfg.s, k, np.round(x / prob.scale, 9).tobytes(),
                      round(path.deltas[min(k, len(path.deltas) - 1)] / cfg.delta, 12))
        rec.outcome(algo, np.round(path.X, 9).tobytes(), tuple(path.acc))
        return path
    raise Violation(
        f"{algo} on problem '{prob.name}' with {dict(cfg)}: {msg}",
        {"algo": algo, "prob": prob.name, "cfg": dict(cfg), "actions": [[list(f), d] for f, d in actions],
         "start": None if start is prob.start else [str(x) for x in np.ravel(start)]},
    )


def replay(case, rec, only=None):
    """Run a stored counterexample (used by --replay)."""
    prob = PROBS[case["prob"]]
    start = case.get("start")
    if start is not None:
        start = np.array([complex(x) for x in start]) if prob.cplx else np.array([complex(x).real for x in start])
    conform(case["algo"], prob, Cfg(case["cfg"]), [(f, d) for f, d in case["actions"]], rec, only, start)


def decision_tree(prob, cfg, noise, depth, start=None):
    """All feasible (noise index, decision) sequences of PxMALA of a given depth, by DFS."""
    start = prob.start if start is None else start
    root = Path(np.array(start, dtype=complex if prob.cplx else float), cfg.delta)

    def rec_(path, acts):
        if len(acts) == depth:
            yield acts
            return
        for zi in noise(len(acts)):
            for dec in (True, False):
                q = extend("pxmala", prob, cfg, path, zi, mode_of("pxmala"), dec)
                if q is not None:
                    yield from rec_(q, acts + [(zi, dec)])

    yield from rec_(root, [])


# ----------------------------------------------------------------- model-free running
def observe(algo, prob, cfg, g, u=(), l=(), start="prob", m=None, exact=True):
    """Run the real sampler on scripted draws.  Running out of draws, or leaving some over
    (with ``exact``), is a violation: the number of draws is part of the behaviour."""
    script = rng.Script(g, u, l)
    m = m or build(algo, prob, cfg)
    st = np.array(prob.start) if isinstance(start, str) else start
    try:
        with rng.scripted(script):
            m.run(st)
    except rng.Exhausted as e:
        raise Violation(f"{algo} on '{prob.name}' with {dict(cfg)}: the run goes on past its last iteration ({e})")
    except rng.Unscripted as e:
        raise Violation(f"{algo} on '{prob.name}' with {dict(cfg)}: {e}")
    left = {k: v for k, v in script.leftovers().items() if v}
    if exact and left:
        raise Violation(f"{algo} on '{prob.name}' with {dict(cfg)}: the run ended early, draws not used: {left}")
    return m


def same(a, b):
    """Bitwise equal arrays (shape, values)."""
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(a == b))


def script_for(algo, prob, cfg, n, history=None, noise=None, start=None, bend=False):
    """Draws for n iterations; for PxMALA with the given accept/reject history (None if infeasible;
    with ``bend``, infeasible decisions are turned around instead)."""
    noise = noise or (lambda i: zlong(prob, i))
    start = prob.start if start is None else start
    path = Path(np.array(start, dtype=complex if prob.cplx else float), cfg.delta)
    if algo != "pxmala":
        for i in range(n):
            path.g += list(noise(i))
        return path
    for i in range(n):
        dec = history[i] if history is not None else True
        if extend(algo, prob, cfg, path, noise(i), mode_of(algo), bool(dec), inplace=True) is None:
            if not bend or extend(algo, prob, cfg, path, noise(i), mode_of(algo), not dec, inplace=True) is None:
                return None
    return path
