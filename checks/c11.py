"""C11: the data-fidelity gradient is the gradient of the log-likelihood."""
import itertools

import numpy as np
import pys2let
from scipy import sparse

from mc.core import Violation
from mc.linear import nondefault
from pxmcmc.forward import ForwardOperator, PathIntegralOperator, SphericalWaveletTransformOperator
from pxmcmc.mcmc import PxMCMC, PxMCMCParams
from pxmcmc.measurements import Identity, Measurement, PathIntegral, WeakLensing, WeakLensingHarmonic
from pxmcmc.prior import L1
from pxmcmc.transforms import IdentityTransform, SphericalWaveletTransform, Transform

PROPERTY = "C11"
LEVEL = "model_checking"
ASSUMES = ["misfit and gradient are quadratic and affine in the sample, so unit central differences at 0, at generic points and along every basis direction determine them"]
RULE = ("every operator configuration in the box x setting x noise form x data type: at each point every partial derivative (real and imaginary) of the reported misfit/2 is "
        "taken by exact central differences and compared with calc_gradg; predictions are compared with the composition of the parts")
BOUNDS = {"quick": "test-double operators of <= 3x3 with all setting/noise/data combinations at 0 and all basis points; wavelet and path operators for L 2..3, B {1.5,2,3}, J_min 0..1, dirs/spin {(1,0),(2,0),(1,2)}; lensing for L 2..3 with 3 masks; fewer and more data than pixels; test doubles with up to 600 data or 400 parameters; wavelet, path and lensing operators at L=12",
          "thorough": "as quick with L 2..5, J_min 0..2, (dirs, spin) additionally (3,0),(2,1); 8 masks; test doubles with up to 600 data or 400 parameters; wavelet, path and lensing operators at L=12 and 16"}


class M(Measurement):
    def __init__(self, A):
        super().__init__(*A.shape)
        self.A = A

    def forward(self, X):
        return self.A @ X

    def adjoint(self, Y):
        return self.A.conj().T @ Y


class Tr(Transform):
    """inverse = W, forward = a left inverse of W, adjoints of both; all four differ."""

    def __init__(self, W):
        self.W = W
        self.V = np.linalg.pinv(W)

    def inverse(self, X):
        return self.W @ X

    def inverse_adjoint(self, X):
        return self.W.conj().T @ X

    def forward(self, X):
        return self.V @ X

    def forward_adjoint(self, X):
        return self.V.conj().T @ X


def det(shape, k, cplx):
    n = int(np.prod(shape))
    v = np.cos(1.0 + 1.7 * np.arange(n) * (k + 1) + 0.3 * k)
    if cplx:
        v = v + 1j * np.sin(0.4 + 2.1 * np.arange(n) * (k + 1))
    return v.reshape(shape)


NOISE = ["scalar", "int", "vector", "cov"]


def sigma(form, nd):
    if form == "scalar":
        return 0.7
    if form == "int":
        return 2
    if form == "vector":
        return 0.5 + 0.25 * np.arange(nd)
    c = np.diag(1.0 + 0.1 * (np.arange(nd) % 50))
    for i in range(nd - 1):
        c[i, i + 1] = c[i + 1, i] = 0.3 - 0.1 * (i % 3)
    return c


MASKS = ["none", "first", "cross", "half", "one", "alt", "last", "ring"]


def mask(name, L):
    m = np.ones((L, 2 * L - 1))
    if name == "first":
        m[0] = 0
    elif name == "cross":
        m[L // 2] = 0
        m[:, 0] = 0
    elif name == "half":
        m[:, : L] = 0
    elif name == "one":
        m[:] = 0
        m[L - 1, 1 % (2 * L - 1)] = 1
    elif name == "alt":
        m.ravel()[::2] = 0
    elif name == "last":
        m.ravel()[-1] = 0
    elif name == "ring":
        m[-1] = 0
    return m


def cases(tier):
    q = tier == "quick"
    out = []
    for nd, npix, npar in itertools.product((1, 2, 3), repeat=3):
        for setting, noise in itertools.product(("analysis", "synthesis"), NOISE):
            for oc, dc, pc in itertools.product((False, True), repeat=3):
                out.append({"op": "double", "dims": [nd, npix, npar], "setting": setting, "noise": noise, "oc": oc, "dc": dc, "pc": pc})
    dirs = [(1, 0), (2, 0), (1, 2)] if q else [(1, 0), (2, 0), (1, 2), (3, 0), (2, 1)]
    for L in (2, 3) if q else (2, 3, 4, 5):
        for B in (1.5, 2, 3):
            for J in (0, 1) if q else (0, 1, 2):
                if pys2let.pys2let_j_max(B, L, J) < J:
                    continue
                for d, s in dirs:
                    if d > L or s >= L:
                        continue
                    for setting in ("analysis", "synthesis"):
                        for noise in (("vector",) if q else NOISE):
                            for dc in (False, True):
                                c = {"L": L, "B": B, "J": J, "dirs": d, "spin": s, "setting": setting, "noise": noise, "dc": dc}
                                out.append(dict(c, op="wavelet"))
                                if d == 1 and s == 0:
                                    out += [dict(c, op="wavelet", extra=e) for e in (-3, -1, 2)]
                                out.append(dict(c, op="path"))
    for L in (2, 3) if q else (2, 3, 4):
        for mk in MASKS[: 3 if q else 8]:
            for ngal in (False, True):
                for setting in ("analysis", "synthesis"):
                    out.append({"op": "lensing", "L": L, "mask": mk, "ngal": ngal, "setting": setting, "noise": "vector"})
        for setting in ("analysis", "synthesis"):
            out.append({"op": "lensharm", "L": L, "setting": setting, "noise": "scalar"})
    for dims in ([600, 9, 4], [9, 400, 30], [30, 9, 400], [300, 300, 5]):
        for setting, noise in itertools.product(("analysis", "synthesis"), ("vector", "cov")):
            for dc in (False, True):
                out.insert(0, {"op": "double", "dims": dims, "setting": setting, "noise": noise, "oc": dc, "dc": dc, "pc": dc})
    for L in (12,) if q else (12, 16):
        for setting in ("analysis", "synthesis"):
            for op in ("wavelet", "path"):
                out.insert(0, {"op": op, "L": L, "B": 2, "J": 1, "dirs": 1, "spin": 0, "setting": setting, "noise": "vector", "dc": True, "paths": 400})
            out.insert(0, {"op": "lensing", "L": L, "mask": "cross", "ngal": True, "setting": setting, "noise": "vector"})
            out.insert(0, {"op": "lensharm", "L": L, "setting": setting, "noise": "scalar"})
    return out


def make(case):
    """-> operator, number of parameters, complex parameters?, measurement, transform"""
    op, st = case["op"], case["setting"]
    if op == "double":
        nd, npix, npar = case["dims"]
        me = M(det((nd, npix), 0, case["oc"]))
        tr = Tr(det((npix, npar), 1, case["oc"]))
        data = det((nd,), 2, case["dc"])
        n = npix if st == "analysis" else npar
        return ForwardOperator(data, sigma(case["noise"], nd), st, transform=tr, measurement=me, nparams=n), n, case["pc"], me, tr
    L = case["L"]
    npix = L * (2 * L - 1)
    if op in ("wavelet", "path"):
        a = (L, case["B"], case["J"], case["dirs"], case["spin"])
        tr = SphericalWaveletTransform(*a)
        if op == "wavelet":
            nd = npix + case.get("extra", 0)
            data = det((nd,), 2, case["dc"])
            f = SphericalWaveletTransformOperator(data, sigma(case["noise"], nd), st, *a[:3], **nondefault(dirs=case["dirs"], spin=case["spin"]))
            me = Identity(nd, npix)
        else:
            nd = case.get("paths", 5)
            A = det((nd, npix), 3, False)
            A[np.abs(A) < 0.5] = 0
            A = sparse.csr_matrix(A)
            data = det((nd,), 2, case["dc"])
            f = PathIntegralOperator(A, data, sigma(case["noise"], nd), st, *a[:3], **nondefault(dirs=case["dirs"], spin=case["spin"]))
            me = PathIntegral(A)
        return f, f.nparams, True, me, tr
    tr = SphericalWaveletTransform(L, 2, 0, harmonic=op == "lensharm")
    if op == "lensing":
        ng = 5 + np.arange(npix).reshape(L, 2 * L - 1) % 4 if case["ngal"] else None
        me = WeakLensing(L, mask=mask(case["mask"], L), ngal=ng)
        nd = int(mask(case["mask"], L).sum())
        n = npix
    else:
        me = WeakLensingHarmonic(L)
        nd = n = L * L
    if st == "synthesis":
        n = tr.ncoefs
    return ForwardOperator(det((nd,), 2, True), sigma(case["noise"], nd), st, transform=tr, measurement=me, nparams=n), n, True, me, tr


def run_case(case, rec):
    f, n, cplx, me, tr = make(case)
    st = case["setting"]
    lp = PxMCMC(f, L1("synthesis", None, None, 0.1), PxMCMCParams(nsamples=1, complex=cplx, track=[]))

    def half_misfit(X):
        rec.step()
        return lp.logpi(X, f.forward(X))[1] / 2

    expected_n = {"wavelet": 1, "path": 1}
    if case["op"] in expected_n:
        want = tr.ncoefs if st == "synthesis" else case["L"] * (2 * case["L"] - 1)
        if f.nparams != want:
            raise Violation(f"{case}: {f.nparams} parameters, expected {want}")
    dt = complex if cplx else float
    pts = [("0", np.zeros(n, dtype=dt)), ("generic", det((n,), 5, cplx).astype(dt))]
    if n <= 4:
        for k in range(n):
            e = np.zeros(n, dtype=dt)
            e[k] = 1
            pts.append((f"e{k}", e))
            if cplx:
                pts.append((f"i*e{k}", 1j * e))
    for name, X in pts:
        p = f.forward(X.copy())
        want = me.forward(X) if st == "analysis" else me.forward(tr.inverse(X))
        if np.shape(p) != np.shape(want) or not np.allclose(p, want, rtol=1e-9, atol=1e-9 * (1 + np.max(np.abs(want), initial=0))):
            raise Violation(f"{case}: forward({name}) is {p!r}, measuring {'the sample' if st == 'analysis' else 'its inverse transform'} gives {want!r}")
        g = np.asarray(f.calc_gradg(p))
        if g.shape != (n,):
            raise Violation(f"{case}: gradient has shape {g.shape} for {n} parameters")
        num = np.zeros(n, dtype=complex)
        for k in range(n):
            for unit in (1, 1j) if cplx else (1,):
                e = np.zeros(n, dtype=dt)
                e[k] = unit
                num[k] += unit * (half_misfit(X + e) - half_misfit(X - e)) / 2
        if not cplx:
            g = np.real(g)
        scale = max(1.0, np.max(np.abs(num)))
        err = np.abs(g - num)
        if not np.all(err <= 1e-7 * scale):
            k = int(np.nanargmax(np.where(np.isnan(err), np.inf, err)))
            raise Violation(f"{case}: at {name}, component {k} of the gradient is {g[k]}, the misfit's derivative is {num[k]}")
        rec.trace()
        rec.state(repr(sorted(case.items())), name)
        rec.outcome(np.round(num / scale, 6).tobytes())
    # the gradient is linear in the residual however small it is
    d = det(np.shape(f.data), 6, np.iscomplexobj(f.data) or cplx)
    for s in (1e-12, 1e-9, 1e-4, 1e6):
        p = f.data + s * d
        res = p - f.data
        f2 = 2.0 ** round(-np.log2(s))
        g, ref = np.asarray(f.calc_gradg(p)), np.asarray(f.calc_gradg(f.data + f2 * res)) / f2
        rec.step(2)
        if not np.allclose(g, ref, rtol=0, atol=1e-5 * np.max(np.abs(ref), initial=0)):
            raise Violation(f"{case}: the gradient at residuals {res!r} is {g!r}, at {f2:g} times the residuals it is {f2:g} times {ref!r}")
    rec.sample({"case": case, "parameters": n, "points": [a for a, _ in pts]})
