"""C09: runs are isolated: results depend only on inputs and random draws.

Explores all short histories of operations on a world of two samplers that share one forward operator, one
prior and one parameter object, and compares every run with the same run done alone in a fresh world.
"""
import copy
import itertools

import numpy as np
from scipy.sparse import csr_matrix

from mc import rng, sampler as S
from mc.core import Violation
from pxmcmc.forward import ForwardOperator
from pxmcmc.measurements import PathIntegral
from pxmcmc.prior import L1, S2_Wavelets_L1
from pxmcmc.transforms import IdentityTransform, SphericalWaveletTransform

PROPERTY = "C09"
LEVEL = "model_checking"
ASSUMES = ["the only state shared between worlds is what the package itself keeps in modules and classes"]
RULE = ("every operation sequence of the stated length over {build A, build B, run A with script 0/1, run B with script 0/1, overwrite the start array}, "
        "for every pair of samplers and each world; after every operation all earlier results and all inputs are compared with their snapshots")
BOUNDS = {"quick": "all sequences of length 1..4 over 7 operations x 16 sampler pairs x 3 worlds (test doubles real/complex, built-in operators)",
          "thorough": "all sequences of length 1..6 over 7 operations x 16 sampler pairs x 4 worlds (adds the wavelet world)"}
ALGOS = ["myula", "skrock", "pxmala", "pxmala-tune"]
OPS = ["bA", "bB", "A0", "A1", "B0", "B1", "mut"]
NS, NB, GAP = 3, 1, 2
N = NB + (NS - 1) * GAP + 1


def cases(tier):
    q = tier == "quick"
    worlds = ["real", "complex", "builtin"] + ([] if q else ["wavelet"])
    out = []
    for world in worlds:
        for a, b in itertools.product(ALGOS, repeat=2):
            for first in ("bA", "bB", "mut"):
                out.append({"world": world, "A": a, "B": b, "first": first, "depth": (4 if q else 6) - (world == "wavelet")})
    return out


class World:
    def __init__(self, kind, delta=None):
        self.kind = kind
        self.cplx = kind == "complex"
        if kind in ("real", "complex"):
            self.prob = S.PROBS["real2" if kind == "real" else "cplx2"]
            self.fwd = S.HForward(self.prob)
            self.prior = S.HPrior(self.prob)
            self.arrays = {"A": self.prob.A, "W": self.prob.W}
            self.start = np.array(self.prob.start)
        elif kind == "builtin":
            P = np.array([[1.0, 0.0, 0.5], [0.2, -0.7, 0.0], [0.0, 0.3, 0.9], [0.4, 0.4, 0.1]])
            P = csr_matrix(P)
            data, sig, T = np.array([0.3, -0.2, 0.8, 0.1]), np.array([1.0, 0.5, 0.8, 1.2]), np.array([0.2, 0.1, 0.3])
            tr = IdentityTransform()
            self.fwd = ForwardOperator(data, sig, "synthesis", transform=tr, measurement=PathIntegral(P), nparams=3)
            self.prior = L1("synthesis", tr.inverse, tr.inverse_adjoint, T)
            self.arrays = {"path matrix": P.data, "data": data, "sig_d": sig, "T": T}
            self.start = np.array([0.4, -0.6, 0.2])
        else:
            L = 3
            tr = SphericalWaveletTransform(L, 2, 1)
            npix = L * (2 * L - 1)
            P = np.arange(4 * npix, dtype=float).reshape(4, npix) % 7 / 10
            P = csr_matrix(P)
            data, sig = np.array([0.3, -0.2, 0.8, 0.1]), 0.7
            n = tr.ncoefs
            self.fwd = ForwardOperator(data, sig, "synthesis", transform=tr, measurement=PathIntegral(P), nparams=n)
            self.prior = S2_Wavelets_L1("synthesis", tr.inverse, tr.inverse_adjoint, 0.1, L=L, B=2, J_min=1)
            self.arrays = {"path matrix": P.data, "data": data}
            self.start = 0.3 * np.cos(np.arange(n))
        self.n = len(self.start)
        self.start0 = self.start.copy()
        self.params = S.PxMCMCParams(lmda=0.4, delta=0.15 if delta is None else delta, s=3, mu=1.1, nsamples=NS, nburn=NB, ngap=GAP,
                                     complex=self.cplx, verbosity=2, track=["logposterior", "L2", "prior", "predictions", "chain"])

    def make(self, algo):
        if algo == "pxmala":
            return S.PxMALA(self.fwd, self.prior, self.params, tune_delta=False)
        if algo == "pxmala-tune":
            return S.PxMALA(self.fwd, self.prior, self.params)
        return S.CLS[algo](self.fwd, self.prior, self.params)

    def inputs(self):
        d = {k: np.array(v) for k, v in self.arrays.items()}
        d["forward.data"] = np.array(self.fwd.data)
        d["start point"] = self.start.copy()
        # what the operator and prior compute, at a fixed point
        x = self.start0
        p = self.fwd.forward(x.copy())
        d["forward(x)"] = np.array(p)
        d["gradient(x)"] = np.array(self.fwd.calc_gradg(p))
        d["prior(x)"] = np.array(self.prior.prior(x.copy()))
        d["prox(x)"] = np.array(self.prior.proxf(x.copy()))
        return d, copy.deepcopy(self.params.__dict__)


def script(k, algo, n, cplx):
    w = n * (2 if cplx else 1)
    g = [1.3 * np.sin(0.7 + 1.9 * i + 2.3 * k) for i in range(N * w)]
    u = ([0.5, 1e-200, 0.97, 1e-200, 0.3, 0.9] if k == 0 else [1e-200, 0.999, 0.6, 0.2, 1e-200, 0.01])[:N] if algo.startswith("pxmala") else []
    return rng.Script(g, u)


def results(m):
    d = {a: np.array(getattr(m, a)) for a in ("chain", "preds", "logPi", "L2s", "priors")}
    for a in ("acceptance_trace", "deltas_trace"):
        if hasattr(m, a):
            d[a] = np.array(getattr(m, a), dtype=float)
    d["delta"] = np.array(float(m.delta))
    return d


def differs(a, b):
    if a.keys() != b.keys():
        return f"{sorted(a)} vs {sorted(b)}"
    for k in a:
        if not S.close(a[k], b[k], 1e-9):
            return f"{k} is {a[k]!r}, expected {b[k]!r}"
    return None


_alone = {}


def alone(world, algo, k, delta, start):
    key = (world, algo, k, round(delta, 14), start.tobytes())
    if key not in _alone:
        w = World(world, delta)
        w.start[:] = start
        m = w.make(algo)
        with rng.scripted(script(k, algo, w.n, w.cplx)):
            m.run(w.start)
        _alone[key] = results(m)
    return _alone[key]


def well_formed(seq):
    built = set()
    for op in seq:
        if op[0] == "b":
            if op[1] in built:
                return False
            built.add(op[1])
        elif op != "mut" and op[0] not in built:
            return False
    return True


def run_case(case, rec):
    kind, algos = case["world"], {"A": case["A"], "B": case["B"]}
    if "ops" in case:
        seqs = [tuple(case["ops"])]
    else:
        # all well-formed sequences; shorter ones are prefixes, checked on the way
        seqs = [(case["first"],) + s for s in itertools.product(OPS, repeat=case["depth"] - 1)]
        seqs = [s for s in seqs if well_formed(s)]
    for seq in seqs:
        w = World(kind)
        inp, par = w.inputs()
        par_id = (w.params.track, list(w.params.track))
        live, saved = {}, {}
        label = f"world '{kind}', A={algos['A']}, B={algos['B']}, operations {' '.join(seq)}"

        def fail(msg):
            raise Violation(f"{label}: {msg}", dict(case, ops=list(seq)))

        for t, op in enumerate(seq):
            if op[0] == "b":
                live[op[1]] = w.make(algos[op[1]])
            elif op == "mut":
                w.start[:] = w.start[::-1] * 0.5 + 0.01
                inp["start point"] = w.start.copy()
            else:
                who, k = op[0], int(op[1])
                m = live[who]
                d0 = float(m.delta)
                want_d0 = saved[who]["delta"] if who in saved and algos[who] == "pxmala-tune" else w.params.delta
                if abs(d0 - want_d0) > 1e-12:
                    fail(f"step {t}: {who} would start with step size {d0}, expected {want_d0}")
                sc = script(k, algos[who], w.n, w.cplx)
                try:
                    with rng.scripted(sc):
                        m.run(w.start)
                except Exception as e:
                    fail(f"step {t} ({op}) raised {type(e).__name__}: {e}")
                if any(sc.leftovers().values()):
                    fail(f"step {t} ({op}): draws not used: {sc.leftovers()}")
                saved[who] = results(m)
                d = differs(saved[who], alone(kind, algos[who], k, d0, w.start))
                if d:
                    fail(f"step {t} ({op}): {d} when run alone")
                rec.trace()
                rec.step(N)
                rec.outcome(kind, algos[who], k, np.round(saved[who]["chain"], 9).tobytes())
            for who in saved:
                d = differs(results(live[who]), saved[who])
                if d:
                    fail(f"step {t} ({op}) changed the saved results of {who}: {d}")
            if w.params.__dict__ != par:
                fail(f"step {t} ({op}) changed the parameter object: {par} -> {w.params.__dict__}")
            rec.state(kind, case["A"], case["B"], seq[: t + 1])
        now, _ = w.inputs()
        for k, v in now.items():
            if not S.close(v, inp[k], 1e-12):
                fail(f"{k} changed from {inp[k]!r} to {v!r}")
    if seqs:
        rec.sample({"world": kind, "A": case["A"], "B": case["B"], "operations": list(seqs[-1])})
