"""Planted bugs: see plant.py."""
M, F, ME, T = "pxmcmc/mcmc.py", "pxmcmc/forward.py", "pxmcmc/measurements.py", "pxmcmc/transforms.py"
PR, U, S, Q, G = "pxmcmc/prior.py", "pxmcmc/utils.py", "pxmcmc/saving.py", "pxmcmc/uncertainty.py", "pxmcmc/plotting.py"
PH = "experiments/phasevel/main.py"
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo, count=1):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, count=count))


PROBLEM = '''
import numpy as np
from pxmcmc.mcmc import MYULA, PxMALA, SKROCK, PxMCMCParams
from pxmcmc.measurements import *
from pxmcmc.transforms import *
from pxmcmc.forward import *
from pxmcmc.prior import *


def problem(n=3, data=None, sig=1.0, T=0.1):
    data = np.arange(1.0, n + 1) if data is None else data
    op = ForwardOperator(data, sig, "synthesis", IdentityTransform(), Identity(n, n), nparams=n)
    return op, L1("synthesis", None, None, T)
'''

seed("thin-offset", "C01", [(M, "            curr_preds = prop_preds\n\n            if i >= self.nburn:\n                if self.ngap == 0 or (i - self.nburn) % self.ngap == 0:\n                    logPi, L2, prior = self.logpi(X_curr, curr_preds)\n                    self._tracking(j, X_curr, curr_preds, logPi, L2, prior)\n                    j += 1\n                if self.verbosity > 0 and (i + 1) % self.verbosity == 0:\n                    self._print_progress(j - 1, logPi, L2=L2, prior=prior)\n            else:\n                if self.verbosity > 0 and (i + 1) % self.verbosity == 0:\n                    print(\"Burning in...\")\n            i += 1\n\n        print(\"\\nDONE\")\n\n    def chain_step(self, X):",
      "            curr_preds = prop_preds\n\n            if i >= self.nburn:\n                if self.ngap == 0 or i % self.ngap == 0:\n                    logPi, L2, prior = self.logpi(X_curr, curr_preds)\n                    self._tracking(j, X_curr, curr_preds, logPi, L2, prior)\n                    j += 1\n                if self.verbosity > 0 and (i + 1) % self.verbosity == 0:\n                    self._print_progress(j - 1, logPi, L2=L2, prior=prior)\n            else:\n                if self.verbosity > 0 and (i + 1) % self.verbosity == 0:\n                    print(\"Burning in...\")\n            i += 1\n\n        print(\"\\nDONE\")\n\n    def chain_step(self, X):")],
     "SKROCK with a burn-in that is not a multiple of the thinning interval", "thinning counts from iteration 0 instead of from the end of burn-in",
     PROBLEM + '''
op, pr = problem()
def run(nburn, ngap, n):
    np.random.seed(3)
    m = SKROCK(op, pr, PxMCMCParams(lmda=0.1, delta=0.01, s=2, nsamples=n, nburn=nburn, ngap=ngap, verbosity=0))
    m.run(np.zeros(3))
    return m.chain
full = run(0, 1, 20)
assert np.array_equal(run(3, 2, 4), full[3:11:2])
''')

seed("stale-prox", "C03", [(M, "                proxf_curr = proxf_prop\n", "                proxf_curr = proxf_prop if i < self.nburn else proxf_curr\n")],
     "an accepted move after burn-in followed by another proposal", "proposals and acceptance ratios use the prox of an earlier state",
     PROBLEM + '''
op, pr = problem()
seen = []
class Spy(PxMALA):
    def chain_step(self, X, proxf, gradg):
        seen.append((np.array(X), np.array(proxf)))
        return super().chain_step(X, proxf, gradg)
np.random.seed(1)
m = Spy(op, pr, PxMCMCParams(lmda=0.5, delta=0.05, nsamples=20, nburn=2, ngap=1, verbosity=0), tune_delta=False)
m.run(np.array([2.0, -1, 0.5]))
assert sum(m.acceptance_trace) > 2
for X, p in seen:
    assert np.allclose(p, pr.proxf(X)), "proposal made with the prox of another state"
''')

seed("trace-kept", "C04", [(M, "        self.acceptance_trace = []\n", "        self.acceptance_trace = getattr(self, \"acceptance_trace\", [])\n")],
     "a second run of the same sampler", "the acceptance trace of the second run starts with the first run's entries",
     PROBLEM + '''
op, pr = problem()
m = PxMALA(op, pr, PxMCMCParams(lmda=0.5, delta=0.05, nsamples=4, nburn=1, ngap=1, verbosity=0))
m.run(np.zeros(3))
m.run(np.zeros(3))
assert len(m.acceptance_trace) == 5, len(m.acceptance_trace)
''')

seed("delta-floor", "C05", [(M, "max(delta, self.lmda * 1e-8)", "max(delta, 1e-8)")],
     "a step size below 1e-8 while tuning", "the lower limit of the tuned step size no longer scales with lmda",
     PROBLEM + '''
op, pr = problem()
m = PxMALA(op, pr, PxMCMCParams(lmda=1e-4, delta=1e-10, nsamples=1, nburn=0, ngap=1, verbosity=0))
m.run(np.zeros(3))
assert m.deltas_trace[1] < 1e-9, m.deltas_trace
''')

seed("skrock-nu", "C06", [(M, "        self.nus[1] = self.s * self.omega_1 / 2\n", "        self.nus[1] = self.omega_1 / 2\n")],
     "SKROCK with more than one stage", "the first stage perturbs the state by too little noise",
     PROBLEM + '''
from pxmcmc.utils import chebyshev1, cheb1der
op, pr = problem()
m = SKROCK(op, pr, PxMCMCParams(lmda=0.5, delta=0.05, s=3, nsamples=1, nburn=0, ngap=1, verbosity=0))
x0 = np.array([1.0, -2.0, 0.3])
np.random.seed(5); m.run(x0)
np.random.seed(5); Z = np.random.randn(3)
w0 = 1 + 0.05 / 9; w1 = chebyshev1(w0, 3) / cheb1der(w0, 3); d = 0.05
def grad(x): return -(x - pr.proxf(x)) / 0.5 - op.calc_gradg(op.forward(x))
K = [x0, x0 + w1 / w0 * d * grad(x0 + 3 * w1 / 2 * np.sqrt(2 * d) * Z) + 3 * w1 / w0 * np.sqrt(2 * d) * Z]
for j in (2, 3):
    r = chebyshev1(w0, j - 1) / chebyshev1(w0, j); nu = 2 * w0 * r
    K.append(2 * w1 * r * d * grad(K[-1]) + nu * K[-1] + (1 - nu) * K[-2])
assert np.allclose(K[3], m.chain[0]), (K[3], m.chain[0])
''')

seed("untracked-posterior", "C08", [(M, "                logpiXc = logpiXp\n", "                if hasattr(self, \"logPi\"):\n                    logpiXc = logpiXp\n")],
     "PxMALA that does not track the log posterior, after an accepted move", "acceptance compares with the log posterior of an earlier state unless it is tracked",
     PROBLEM + '''
op, pr = problem()
def run(track):
    np.random.seed(0)
    m = PxMALA(op, pr, PxMCMCParams(lmda=0.5, delta=0.2, nsamples=300, nburn=0, ngap=1, verbosity=0, track=track), tune_delta=False)
    m.run(np.array([5.0, -4.0, 3.0]))
    return m.chain
assert np.array_equal(run(["chain", "logposterior"]), run(["chain"]))
''')

seed("laplace-phase", "C10", [(M, "                X_curr = X_curr + laplace.rvs(size=self.forward.nparams) * 1j\n", "                X_curr = X_curr * (1 + 1j)\n")],
     "complex parameters and no start point", "real and imaginary parts of the random start point are equal instead of independent",
     PROBLEM + '''
op, pr = problem(data=np.array([1.0, 2, 3]) + 0j)
m = MYULA(op, pr, PxMCMCParams(lmda=0.5, delta=1e-12, nsamples=1, nburn=0, ngap=1, verbosity=0, complex=True))
m.run()
assert not np.allclose(m.chain[0].real, m.chain[0].imag, atol=1e-4)
''')

seed("noise-phase", "C02", [(M, "            w = w + np.random.randn(self.forward.nparams) * 1j\n", "            w = w + np.random.randn() * 1j\n")],
     "complex parameters", "all imaginary parts receive one common noise value",
     PROBLEM + '''
op, pr = problem(data=np.zeros(3) + 0j)
m = MYULA(op, pr, PxMCMCParams(lmda=0.5, delta=0.05, nsamples=3, nburn=0, ngap=1, verbosity=0, complex=True))
m.run(np.zeros(3, dtype=complex))
assert np.ptp(m.chain[0].imag) > 1e-6
''')

seed("setting-substring", "C12", [(F, '        if setting not in ["analysis", "synthesis"]:\n', '        if setting not in "analysis or synthesis":\n')],
     "an abbreviated or empty setting", "unknown settings that are parts of the text are accepted and run as synthesis",
     PROBLEM + '''
try:
    ForwardOperator(np.ones(2), 1.0, "anal", IdentityTransform(), Identity(2, 2), nparams=2)
except ValueError:
    pass
else:
    raise AssertionError("an unknown setting was accepted")
''')

seed("path-transpose", "C13", [(ME, "        self.path_matrix_adj = self.path_matrix.getH()\n", "        self.path_matrix_adj = self.path_matrix.transpose()\n")],
     "a complex path matrix", "the adjoint is not conjugated",
     PROBLEM + '''
from scipy import sparse
P = PathIntegral(sparse.csr_matrix(np.array([[1 + 2j, 0, 1j], [0.5, -1j, 2]])))
x, y = np.array([1.0, 2j, -1]), np.array([1j, 3.0])
assert np.isclose(np.vdot(P.forward(x), y), np.vdot(x, P.adjoint(y)))
''')

seed("ngal-ignored", "C14", [(ME, "        if ngal is None:\n", "        if ngal is None or mask is None:\n")],
     "galaxy counts given without a mask", "galaxy counts are ignored",
     PROBLEM + '''
L = 4
n = np.full((L, 2 * L - 1), 30.0)
w, u = WeakLensing(L, ngal=n), WeakLensing(L)
k = np.cos(np.arange(L * (2 * L - 1)))
assert np.allclose(w.forward(k), u.forward(k) * np.sqrt(60 / 0.37 ** 2))
''')

seed("lensing-inplace", "C25", [(ME, "        out = flm * self.harmonic_kernel\n", "        out = np.multiply(flm, self.harmonic_kernel, out=flm if flm.dtype == complex else None)\n")],
     "the same complex coefficients passed to the harmonic lensing operator twice", "the caller's coefficients are overwritten",
     PROBLEM + '''
w = WeakLensingHarmonic(4)
k = np.arange(16) + 1j
assert np.array_equal(w.forward(k), w.forward(k)) and np.array_equal(k, np.arange(16) + 1j)
''')

seed("real-wavelets", "C15", [(T, "        X = self.inv(wav, scal, **self.params)\n", "        if not self.spin and not np.iscomplexobj(X):\n            wav = wav.real.astype(complex)\n        elif self.dirs > 1:\n            wav = wav.conj()\n        X = self.inv(wav, scal, **self.params)\n")],
     "complex coefficients of directional wavelets", "the inverse transform conjugates directional wavelet coefficients",
     PROBLEM + '''
t = SphericalWaveletTransform(4, 2, 0, dirs=2)
f = np.cos(np.arange(28)) + 1j * np.sin(np.arange(28) * 2.0)
import pyssht
f = pyssht.inverse(pyssht.forward(f.reshape(4, 7), 4), 4).flatten()
assert np.allclose(t.inverse(t.forward(f)), f)
''')

seed("analysis-prox", "C17", [(PR, "        return X + self.fwd(soft(self.adj(X), self.T) - self.adj(X))\n", "        return self.fwd(soft(self.adj(X), self.T))\n")],
     "the analysis setting with a transform pair that is not an orthonormal basis", "the part of the sample outside the range of the transform is lost",
     PROBLEM + '''
A = np.array([[0.6, 0.8, 0.0]])
p = L1("analysis", lambda c: A.T @ c, lambda x: A @ x, 0.25)
x = np.array([1.0, -0.5, 2.0])
assert np.allclose(p.proxf(x), x + A.T @ (np.sign(A @ x) * np.maximum(abs(A @ x) - 0.25, 0) - A @ x))
''')

seed("scaling-samples", "C18", [(PR, "        nsamples = pyssht.sample_length(effective_L)\n        weights = np.full(pyssht.sample_shape(effective_L), 2 * np.pi ** 2 / (scaling_power * nsamples))", "        nsamples = pyssht.sample_length(self.L)\n        weights = np.full(pyssht.sample_shape(effective_L), 2 * np.pi ** 2 / (scaling_power * nsamples))")],
     "a scaling function with a smaller bandlimit than the map", "weights of the scaling coefficients are normalised with the number of pixels of the full map",
     PROBLEM + '''
import pys2let, pyssht
L, B, J = 8, 2, 2
t = SphericalWaveletTransform(L, B, J)
p = S2_Wavelets_L1_Power_Weights("synthesis", t.inverse, t.inverse_adjoint, 1.0, L, B, J)
phi, _ = pys2let.wavelet_tiling(B, L, 1, J, 0)
e = np.zeros(t.ncoefs); e[0] = 1
th, _ = pyssht.sample_positions(4)
assert np.isclose(p.prior(e), 2 * np.pi ** 2 / (np.vdot(phi, phi).real * 28) * np.sin(th[0]))
''')

seed("hard-sign", "C19", [(U, "    X[abs(X) < thresh_val] = 0\n", "    X[X < thresh_val] = 0\n")],
     "negative values among the largest in modulus", "large negative values are thresholded away",
     '''
import numpy as np
from pxmcmc.utils import hard
assert hard(np.array([1.0, -5.0, 2.0, 4.0]), 0.5).tolist() == [0, -5, 0, 4]
''')

seed("area-radius", "C21", [(U, "            areas[t + 1][p] = pixel_area(r, theta1, theta2, phi1, phi2)\n", "            areas[t + 1][p] = r * pixel_area(1, theta1, theta2, phi1, phi2)\n")],
     "a radius other than 1", "pixel areas scale with the radius instead of its square",
     '''
import numpy as np
from pxmcmc.utils import calc_pixel_areas
assert np.isclose(calc_pixel_areas(5, 2.0).sum(), 16 * np.pi)
''')

seed("cheb-closed", "C22", [(U, "        return 2.0 * X * chebyshev1(X, order - 1) - chebyshev1(X, order - 2)\n", "        if order > 7:\n            return np.cosh(order * np.arccosh(np.asarray(X, dtype=complex))).real if np.all(np.abs(X) >= 1) else np.cos(order * np.arccos(X))\n        return 2.0 * X * chebyshev1(X, order - 1) - chebyshev1(X, order - 2)\n")],
     "high orders with arguments on both sides of 1 in one array", "NaN where the closed form does not apply",
     '''
import numpy as np
from pxmcmc.utils import chebyshev1
x = np.array([0.5, 1.5])
assert np.allclose(chebyshev1(x, 8), np.polynomial.chebyshev.chebval(x, [0] * 8 + [1]))
''')

seed("save-text", "C23", [(S, "            f.attrs[k] = v\n", "            f.attrs[k] = v[:255] if isinstance(v, str) else v\n")],
     "an extra keyword with more than 255 characters", "long texts are cut off in the saved file",
     PROBLEM + '''
import os, tempfile, h5py
from pxmcmc.saving import save_mcmc
op, pr = problem()
p = PxMCMCParams(lmda=0.5, delta=0.05, nsamples=2, nburn=0, ngap=1, verbosity=0)
m = MYULA(op, pr, p); m.run()
text = "a note on this run " * 30
with tempfile.TemporaryDirectory() as d:
    save_mcmc(m, p, d, note=text)
    with h5py.File(os.path.join(d, "outputs.hdf5")) as f:
        assert f.attrs["note"] == text
''')

seed("save-deltas", "C23", [(S, 'f.create_dataset("deltas", data=mcmc.deltas_trace)', 'f.create_dataset("deltas", data=mcmc.deltas_trace, dtype="f4")')],
     "step sizes that single precision cannot hold", "the saved step-size trace is rounded",
     PROBLEM + '''
import os, tempfile, h5py
from pxmcmc.saving import save_mcmc
op, pr = problem()
p = PxMCMCParams(lmda=0.5, delta=0.05, nsamples=2, nburn=0, ngap=1, verbosity=0)
m = PxMALA(op, pr, p); m.run()
with tempfile.TemporaryDirectory() as d:
    save_mcmc(m, p, d)
    with h5py.File(os.path.join(d, "outputs.hdf5")) as f:
        assert f["deltas"][:].tolist() == m.deltas_trace
''')

seed("interval-flat", "C24", [(Q, "    quantiles = np.quantile(chain, (alpha / 2, 1 - alpha / 2), axis=0)\n", "    quantiles = np.quantile(chain, (alpha / 2, 1 - alpha / 2), axis=0, method=\"nearest\")\n")],
     "quantiles that fall between samples", "the interval ends snap to samples",
     '''
import numpy as np
from pxmcmc.uncertainty import credible_interval_range
c = np.array([[0.0], [1.0], [2.0], [4.0]])
assert np.allclose(credible_interval_range(c, 0.1), np.quantile(c, 0.95) - np.quantile(c, 0.05))
''')

seed("wav-alpha", "C16", [(Q, "            credible_interval_range(wav, alpha).reshape(pyssht.sample_shape(bl))\n", "            credible_interval_range(wav, alpha if i else 0.05).reshape(pyssht.sample_shape(bl))\n")],
     "a level other than the default, in the map of the scaling coefficients", "the scaling map ignores the requested level",
     '''
import numpy as np
from pxmcmc.uncertainty import credible_interval_range, wavelet_credible_interval_range
from pxmcmc.transforms import SphericalWaveletTransform
t = SphericalWaveletTransform(4, 2, 1)
c = np.cos(np.arange(9 * t.ncoefs)).reshape(9, -1)
m = wavelet_credible_interval_range(c, 4, 2, 1, 0.4)
assert np.allclose(np.concatenate([x.ravel() for x in m]), credible_interval_range(c, 0.4))
''')

seed("mask-south", "C26", [(U, "            if np.abs(90 - np.degrees(t)) < size:\n", "            if np.abs(90 - np.rint(np.degrees(t))) < size:\n")],
     "a ring whose rounded colatitude is on the other side of the limit", "the equatorial mask is computed from rounded colatitudes",
     '''
import numpy as np, pyssht
from pxmcmc.utils import build_mask
for L in range(2, 12):
    th, _ = pyssht.sample_positions(L)
    for size in (5, 10, 20, 30.3):
        m = build_mask(L, size)
        for i, t in enumerate(th):
            d = abs(90 - np.degrees(t))
            if d > size and abs(d - size) < 0.5:
                assert m[i].any(), (L, size, i)
            if d < size:
                assert not m[i].any(), (L, size, i)
''')

seed("centre-abs", "C27", [(G, "        cbar_end = max([f.max(), abs(f.min())])\n", "        cbar_end = abs(max([f.max(), f.min()]))\n")],
     "a centred map whose largest modulus is negative", "negative values are cut off by the colour scale",
     '''
import numpy as np
from pxmcmc.plotting import plot_map
f = np.full((2, 3), -3.0); f[0] = 1.0
im = plot_map(f, oversample=False, centre0=True).axes[0].images[0]
assert im.get_clim() == (-3.0, 3.0), im.get_clim()
''')

seed("stdout-lost", "C28", [(U, "        try:\n            yield\n        finally:\n            sys.stdout = old_stdout\n", "        yield\n        sys.stdout = old_stdout\n")],
     "an exception inside suppressed code", "standard output stays suppressed, and closed, afterwards",
     '''
import sys, numpy as np
from pxmcmc.utils import map2alm
old = sys.stdout
try:
    map2alm(np.zeros(11), 1)
except Exception:
    pass
ok = sys.stdout is old
sys.stdout = old
assert ok
''')

seed("paths-unordered", "C29", [(PH, "        result = p.starmap_async(build_path, itrbl)\n        paths = result.get()\n", "        paths = []\n        jobs = [p.apply_async(build_path, args, callback=paths.append) for args in itrbl]\n        for job in jobs:\n            job.wait()\n        p.close()\n        p.join()\n")],
     "a path that takes longer than a later one", "rows of the path matrix are in order of completion",
     '''
import importlib.util, time, numpy as np
spec = importlib.util.spec_from_file_location("phasevel_main", "experiments/phasevel/main.py")
m = importlib.util.module_from_spec(spec)
import sys; sys.modules["phasevel_main"] = m
spec.loader.exec_module(m)
def slow(start, stop, L, real=m.build_path):
    if start[0] == 10:
        time.sleep(1.5)
    return real(start, stop, L)
slow.__module__, slow.__qualname__ = "phasevel_main", "build_path"
real = m.build_path
m.build_path = slow
a, b = np.array([[10.0, 20.0], [80.0, -170.0], [-20.0, 5.0]]), np.array([[-50.0, 130.0], [75.0, 160.0], [-21.0, 40.0]])
P = m.get_path_matrix(a, b, 4, 3).toarray()
for i in range(3):
    assert np.allclose(P[i], real(a[i], b[i], 4)), i
''')

EX = '''
import glob, os, re, runpy, shutil, subprocess, sys, tempfile, types
import numpy as np
import pxmcmc.mcmc as mcmc
real = mcmc.PxMCMCParams
class Short(real):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.nsamples, self.nburn, self.ngap, self.s = 2, 0, 1, 2
mcmc.PxMCMCParams = Short
repo, scratch = os.getcwd(), tempfile.mkdtemp()
out = os.path.join(scratch, "out")
os.mkdir(out)
def script(name, *argv):
    sys.argv = ["main.py", *map(str, argv)]
    os.chdir(scratch)
    try:
        return runpy.run_path(os.path.join(repo, "experiments", name), run_name="__main__")
    finally:
        os.chdir(repo)
import atexit
atexit.register(shutil.rmtree, scratch, True)
'''

seed("chain-seeded", "C30", [("experiments/earthtopography/main.py", "    np.random.seed(None)\n", "    np.random.seed(2)\n")],
     "--makenoise, and two runs compared", "every noisy run repeats the same chain, and its first draws are those of the noise",
     EX + '''
np.save(os.path.join(scratch, "a_mw_b.npy"), np.arange(5 * 9.0))
import pxmcmc.forward as fw, pys2let
pys2let.alm2map_mw = lambda *a: np.arange(5 * 9.0) + 0j
import healpy as hp
hp.read_map = lambda *a, **k: np.zeros(12)
hp.map2alm = lambda *a, **k: np.zeros(15, complex)
args = ("earthtopography/main.py", "--infile", "a_hpx_b.fits", "--outdir", out, "--L", 5, "--makenoise")
pys2let.lm_hp2lm = lambda *a: np.zeros(25, complex)
a = script(*args)["mcmc"].chain.copy()
b = script(*args)["mcmc"].chain.copy()
assert not np.array_equal(a, b), "two runs give the same chain"
''')

seed("nsim-twice", "C30", [(PH, "        sig_d *= np.sqrt(nsim)  # sig_d will get squared later\n", "        sig_d *= nsim  # sig_d will get squared later\n")],
     "--nsim and paths with more than one similar path", "paths are down-weighted by the square of the number of similar paths",
     EX + '''
from scipy import sparse
rows = np.array([[10, 20, -30, 100, 1.5, 0.5, 1, 1], [-40, 60, 50, -70, -2.0, 0.25, 1, 4]], float)
np.savetxt(os.path.join(scratch, "d.txt"), rows)
sparse.save_npz(os.path.join(scratch, "p.npz"), sparse.csr_matrix(np.ones((2, 66))))
m = script("phasevel/main.py", "d.txt", "p.npz", "--outdir", out, "--L", 6, "--nsim")["mcmc"]
x = np.zeros(m.forward.nparams)
L2 = m.logpi(x, m.forward.data + 1)[1]
assert np.isclose(L2, np.sum(1 / (rows[:, 5] ** 2 * rows[:, 7]))), L2
''')

seed("map-shifted", "C31", [("experiments/weaklensing/plot.py", 'MAP_idx = np.where(logpi == max(logpi))\n', 'MAP_idx = np.where(logpi == max(logpi[args.burn :]))\n')],
     "the best sample lies in the discarded part of the chain", "the MAP estimate is no longer the saved sample of highest posterior",
     EX + '''
import pxmcmc.plotting as plotting, healpy as hp
from pxmcmc.saving import save_mcmc
shown = {}
class Fig:
    def __init__(self, *a): self.a = a
    def savefig(self, name, *a, **k): shown[os.path.basename(name)] = self.a
for n in ("plot_map", "plot_evolution", "plot_chain_sample"):
    setattr(plotting, n, lambda *a, **k: Fig(*a))
L, n = 4, 28
hp.write_map(os.path.join(scratch, "takahasi_4096_000_zs16_kappa.fits"), np.arange(192.0), dtype=float)
chain = np.array([np.full(n, v) + np.arange(n) for v in (5.0, 1.0, 2.0)])
run = types.SimpleNamespace(logPi=np.array([-1.0, -3.0, -2.0]), L2s=np.ones(3), priors=np.ones(3), chain=chain)
save_mcmc(run, real(nsamples=3), scratch, filename="r", L=L, B=2, J_min=2, setting="analysis")
script("weaklensing/plot.py", "r.hdf5", out, "--burn", 1, "--no-mask")
assert np.allclose(shown["MAP.png"][0].ravel(), chain[0])
''')

seed("operator-keeps", "C32", [(F, "        if transform is not None:\n            self.transform = transform\n        if measurement is not None:\n            self.measurement = measurement\n", "        self.transform = transform\n        self.measurement = measurement\n")],
     "an operator class that defines its transform or measurement before or outside the base constructor", "the base constructor overwrites components of custom operators with None",
     '''
import numpy as np
from pxmcmc.forward import ForwardOperator
from pxmcmc.measurements import Identity
class Op(ForwardOperator):
    measurement = Identity(2, 2)
op = Op(np.ones(2), 1.0, "analysis", nparams=2)
assert np.allclose(op.forward(np.array([1.0, 2.0])), [1, 2])
''')

seed("short-data", "C11", [(F, "        measurement = Identity(len(data), mw_size(L))\n", "        measurement = Identity(mw_size(L), mw_size(L))\n")],
     "fewer data than pixels", "predictions cover all pixels whatever the number of data",
     '''
import numpy as np
from pxmcmc.forward import SphericalWaveletTransformOperator
op = SphericalWaveletTransformOperator(np.ones(20), 1.0, "analysis", 4, 2, 1)
p = op.forward(np.arange(28.0))
assert np.array_equal(p, np.arange(20.0)), p
''')

seed("fits-copied", "C33", [("experiments/weaklensing/download_takahasi.py", '        os.rename("output.fits", filename_fits)\n', '        shutil.copyfile("output.fits", filename_fits)\n        os.remove("output.fits")\n')],
     "the process killed while the converted map is put in place", "a torn fits file is left under the final name and taken for the map by later runs",
     '''
import os, runpy, shutil, struct, sys, tempfile, types, warnings
import numpy as np, healpy as hp
warnings.simplefilter("ignore")
scratch = tempfile.mkdtemp()
try:
    n = 12
    with open(os.path.join(scratch, "allskymap_nres12r000.zs16.mag.dat"), "wb") as f:
        f.write(struct.pack("<iiqi", 12, 1, n, 12))
        for m in range(4):
            f.write(struct.pack("<i", 48) + np.arange(12, dtype="<f4").tobytes() + struct.pack("<i", 48))
    script = os.path.join(os.getcwd(), "experiments/weaklensing/download_takahasi.py")
    os.chdir(scratch)
    for name in ("requests", "tqdm"):
        sys.modules[name] = types.ModuleType(name)
    sys.modules["tqdm"].tqdm = None

    class Killed(BaseException):
        pass

    def tear(*a, **k):  # the disk accepts only a part of a copy, then the process is killed
        with open(a[1] if isinstance(a[1], str) else "x", "wb") as g:
            g.write(open(a[0], "rb").read(100))
        raise Killed

    real = {k: getattr(shutil, k) for k in ("copyfile", "copy", "copy2", "move")}
    for k in real:
        setattr(shutil, k, tear)
    try:
        runpy.run_path(script, run_name="__main__")
    except Killed:
        pass
    for k in real:
        setattr(shutil, k, real[k])
    runpy.run_path(script, run_name="__main__")
    assert np.array_equal(hp.read_map("takahasi_4096_000_zs16_kappa.fits"), np.arange(12.0))
finally:
    shutil.rmtree(scratch)
''')

seed("model-held", "C34", [(ME, "        return self.path_matrix.dot(X)\n", "        self._model = X\n        return self._apply()\n\n    def _apply(self):\n        return self.path_matrix.dot(self._model)\n")],
     "two samplers in two threads sharing a path integral, switched while one is about to predict", "a prediction may be made for the other sampler's parameters",
     PROBLEM + '''
import sys, threading
from scipy import sparse
P = sparse.csr_matrix(np.array([[1.0, 0.5], [0.2, -1.0]]))
m = PathIntegral(P)
A, B = np.array([1.0, 2.0]), np.array([-3.0, 5.0])
want = P @ A
for stop in range(1, 12):
    count = [0]

    def other():
        m.forward(B)

    def tr(frame, event, arg):
        if "measurements" not in frame.f_code.co_filename:
            return None
        if event == "line":
            count[0] += 1
            if count[0] == stop:
                t = threading.Thread(target=other)
                t.start()
                t.join()
        return tr

    sys.settrace(tr)
    got = m.forward(A)
    sys.settrace(None)
    assert np.allclose(got, want), (stop, got, want)
''')

seed("weights-scratch", "C34", [(PR, "        return soft(X, self.T)\n", "        np.copyto(self.__dict__.setdefault(\"_work\", {}).setdefault((X.shape, X.dtype), np.empty_like(X)), X)\n        X = self._work[(X.shape, X.dtype)]\n        return np.array(soft(X, self.T))\n")],
     "two samplers in two threads sharing a prior, switched inside the proximal map", "the proximal map may be that of the other sampler's state",
     PROBLEM + '''
import sys, threading
pr = L1("synthesis", None, None, 0.5)
A, B = np.array([1.0, 2.0, -4.0]), np.array([-3.0, 5.0, 0.1])
want = pr.proxf(A.copy())
for stop in range(1, 25):
    count = [0]

    def tr(frame, event, arg):
        if "pxmcmc" not in frame.f_code.co_filename:
            return None
        if event == "line":
            count[0] += 1
            if count[0] == stop:
                t = threading.Thread(target=lambda: pr.proxf(B.copy()))
                t.start()
                t.join()
        return tr

    sys.settrace(tr)
    got = pr.proxf(A.copy())
    sys.settrace(None)
    assert np.allclose(got, want), (stop, got, want)
''')

seed("tuning-restarts", "C05", [(M, "self._tune_delta(i)\n", "self._tune_delta(i, i - self.nburn if i >= self.nburn else i)\n"), (M, "def _tune_delta(self, i):", "def _tune_delta(self, i, k):"),
                                (M, "((i + 1) ** 0.75)", "((k + 1) ** 0.75)")],
     "tuning in a run with burn-in", "the tuning steps start large again after burn-in",
     PROBLEM + '''
op, pr = problem()
for nburn in (0, 1, 5):
    np.random.seed(3)
    m = PxMALA(op, pr, PxMCMCParams(lmda=1.0, delta=0.01, nsamples=12, nburn=nburn, ngap=1, verbosity=0), tune_delta=True)
    m.run(np.zeros(3))
    d = m.deltas_trace
    for i, a in enumerate(m.acceptance_trace):
        want = min(max(d[i] * (1 + (a - 0.5) / (i + 1) ** 0.75), 1e-8), 0.5)
        assert abs(d[i + 1] - want) < 1e-12, (nburn, i, d[i + 1], want)
''')

seed("prior-stale", "C07", [(M, "                priorXc = priorXp\n", "                priorXc = priorXp if i < self.nburn or self.ngap == 0 else min(priorXc, priorXp)\n")],
     "PxMALA accepting a move to a larger prior value after burn-in", "the saved prior value is that of an earlier sample",
     PROBLEM + '''
op, pr = problem()
np.random.seed(2)
m = PxMALA(op, pr, PxMCMCParams(lmda=0.5, delta=0.05, nsamples=30, nburn=3, ngap=1, verbosity=0), tune_delta=False)
m.run(np.zeros(3))
assert sum(m.acceptance_trace) > 5
for x, p in zip(m.chain, m.priors):
    assert abs(p - np.abs(x).sum()) < 1e-9
''')

seed("start-overwritten", "C09", [(M, "            X_curr = X_prop\n            curr_preds = prop_preds\n\n            if i >= self.nburn:\n                if self.ngap == 0 or (i - self.nburn) % self.ngap == 0:\n                    logPi, L2, prior = self.logpi(X_curr, curr_preds)\n                    self._tracking(j, X_curr, curr_preds, logPi, L2, prior)\n                    j += 1\n                if self.verbosity > 0 and (i + 1) % self.verbosity == 0:\n                    self._print_progress(j - 1, logPi, L2=L2, prior=prior)\n            else:\n                if self.verbosity > 0 and (i + 1) % self.verbosity == 0:\n                    print(\"Burning in...\")\n            i += 1\n\n        print(\"\\nDONE\")\n\n    def chain_step(self, X, proxf",
                                   "            if X_curr.dtype == X_prop.dtype and X_curr.flags.writeable:\n                X_curr[...] = X_prop\n            else:\n                X_curr = X_prop\n            curr_preds = prop_preds\n\n            if i >= self.nburn:\n                if self.ngap == 0 or (i - self.nburn) % self.ngap == 0:\n                    logPi, L2, prior = self.logpi(X_curr, curr_preds)\n                    self._tracking(j, X_curr, curr_preds, logPi, L2, prior)\n                    j += 1\n                if self.verbosity > 0 and (i + 1) % self.verbosity == 0:\n                    self._print_progress(j - 1, logPi, L2=L2, prior=prior)\n            else:\n                if self.verbosity > 0 and (i + 1) % self.verbosity == 0:\n                    print(\"Burning in...\")\n            i += 1\n\n        print(\"\\nDONE\")\n\n    def chain_step(self, X, proxf")],
     "two runs from one start point array", "the first run overwrites the caller's start point",
     PROBLEM + '''
op, pr = problem()
start = np.array([0.5, -1.0, 2.0])
for _ in range(2):
    np.random.seed(2)
    m = MYULA(op, pr, PxMCMCParams(lmda=0.5, delta=0.05, nsamples=3, nburn=0, ngap=1, verbosity=0))
    m.run(start)
    assert start.tolist() == [0.5, -1.0, 2.0]
''')

seed("integral-real", "C20", [(U, "    f_weighted = mw_map_weights(L) * f\n", "    f_weighted = mw_map_weights(L) * np.abs(f) * np.sign(f.real)\n")],
     "the integral of a complex map", "the modulus is integrated",
     '''
import numpy as np, pyssht
from pxmcmc.utils import s2_integrate
for L in (3, 6):
    for c in (1.0, -2.0, 1j, 2 - 1j):
        f = np.full(L * (2 * L - 1), c)
        assert abs(s2_integrate(f, L) - 4 * np.pi * c) < 1e-9, (L, c, s2_integrate(f, L))
''')

seed("counts-cached", "C25", [(T, "        self._get_ncoefs()\n", "        key = (L, B, J_min, spin, harmonic)\n        if key not in _NCOEFS:\n            self._get_ncoefs()\n            _NCOEFS[key] = (self.nwav, self.nscal, self.ncoefs)\n        self.nwav, self.nscal, self.ncoefs = _NCOEFS[key]\n"),
                             (T, "class Transform:", "_NCOEFS = {}\n\n\nclass Transform:")],
     "two transforms in one process that differ in the number of directions only", "the second one reports the coefficient counts of the first",
     '''
import numpy as np
from pxmcmc.transforms import SphericalWaveletTransform
for dirs in (1, 2, 3, 1):
    t = SphericalWaveletTransform(4, 2, 0, dirs=dirs)
    assert len(t.forward(np.ones(28))) == t.ncoefs, dirs
''')

seed("noise-repeats", "C02", [(M, "        w = np.random.randn(self.forward.nparams)\n        if self.complex:", "        if not hasattr(self, \"_rng\"):\n            self._rng = np.random.default_rng(self.forward.nparams)\n        w = self._rng.standard_normal(self.forward.nparams)\n        if self.complex:")],
     "two samplers of the same size", "every chain is driven by the same noise",
     PROBLEM + '''
op, pr = problem()
chains = []
for seed in (1, 2):
    np.random.seed(seed)
    m = MYULA(op, pr, PxMCMCParams(lmda=0.5, delta=0.05, nsamples=3, nburn=0, ngap=1, verbosity=0))
    m.run(np.zeros(3))
    chains.append(m.chain)
assert not np.allclose(chains[0], chains[1])
''')

seed("flatten-memory-order", "C16", [(U, 'buff = wav_lm.ravel(order="F")', 'buff = wav_lm.ravel(order="F" if wav_lm.flags.c_contiguous else "K")')],
     "wavelet coefficients given as a non-contiguous view", "scales are interleaved in the flattened vector",
     '''
import numpy as np
from pxmcmc.utils import flatten_mlm, expand_mlm
v = np.arange(12.0)
wav, scal = expand_mlm(v, nscales=3)
big = np.zeros((6, 3), dtype=complex)
big[::2] = wav
assert np.array_equal(flatten_mlm(wav, scal), v)
assert np.array_equal(flatten_mlm(big[::2], scal), v)
''')

seed("counts-floored", "C30", [(PH, "sig_d *= np.sqrt(nsim)", "sig_d *= np.sqrt(np.minimum(nsim, 100))")],
     "--nsim with a path that has more than 100 similar paths", "the errors of heavily repeated paths are not increased as asked",
     '''
import numpy as np, os, runpy, sys, tempfile
from scipy import sparse
import pxmcmc.mcmc as mc
class P(mc.PxMCMCParams):
    def __init__(self, **k):
        super().__init__(**dict(k, nsamples=1, nburn=0, ngap=1, s=1))
ran = []
mc.PxMCMCParams = P
real = mc.MYULA.run
mc.MYULA.run = lambda self, *a: (ran.append(self), real(self, *a))[1]
script = os.path.join(os.getcwd(), "experiments/phasevel/main.py")
with tempfile.TemporaryDirectory() as d:
    rows = [[10, 20, -30, 100, 1.5, 0.5, 1, 4], [-40, 60, 50, -70, -2.0, 0.25, 1, 400]]
    np.savetxt(d + "/data.txt", rows)
    sparse.save_npz(d + "/p.npz", sparse.csr_matrix(np.ones((2, 66))))
    sys.argv = ["main.py", d + "/data.txt", d + "/p.npz", "--outdir", d, "--L", "6", "--nsim"]
    runpy.run_path(script, run_name="__main__")
got = ran[0].forward.invcov.diagonal()
assert np.allclose(got, [1 / 1.0, 1 / 25.0]), got
''')

seed("paths-by-start", "C29", [(PH, "        paths = result.get()\n", "        built = {tuple(stt): pth for (stt, _, _), pth in zip(itrbl, result.get())}\n        paths = [built[tuple(stt)] for stt in start]\n")],
     "two paths that start at the same point", "all paths from one source get the path of the last one",
     '''
import importlib.util, numpy as np
spec = importlib.util.spec_from_file_location("phasevel_main", "experiments/phasevel/main.py")
m = importlib.util.module_from_spec(spec); import sys; sys.modules["phasevel_main"] = m; spec.loader.exec_module(m)
a, b, c = np.array([10.0, 20.0]), np.array([-50.0, 130.0]), np.array([40.0, -100.0])
P = m.get_path_matrix([a, a], [b, c], L=6, processes=2).toarray()
for row, stop in zip(P, (b, c)):
    assert np.allclose(row, m.build_path(a, stop, 6))
''')

seed("lensing-underflow", "C13", [(ME, "        f[self.mask] = x\n", "        f[self.mask] = np.where(np.abs(x) < 1e-14, 0, x)\n")],
     "residuals in units that make them very small", "the adjoint drops small observations, so it is not linear",
     PROBLEM + '''
L = 4
wl = WeakLensing(L, ngal=np.full((L, 2 * L - 1), 30))
y = np.cos(np.arange(28.0)) + 1j * np.sin(2 + np.arange(28.0))
assert np.allclose(wl.adjoint(1e-17 * y), 1e-17 * wl.adjoint(y), rtol=1e-9, atol=0)
''')

seed("integral-small", "C20", [(U, "    f_weighted = mw_map_weights(L) * f\n", "    f_weighted = mw_map_weights(L) * np.real_if_close(f)\n")],
     "a complex map with values of 1e-14", "small imaginary parts are dropped from the integral",
     '''
import numpy as np
from pxmcmc.utils import s2_integrate
a = s2_integrate(np.full(28, 1e-15 + 2e-15j), 4)
assert abs(a - 4 * np.pi * (1e-15 + 2e-15j)) < 1e-22, a
''')

seed("sigma-floor", "C12", [(F, "            return sparse.diags(1 / var)", "            return sparse.diags(1 / np.maximum(var, np.finfo(float).eps))")],
     "per-datum errors below 1.5e-8", "small errors are taken for larger ones, unlike the same scalar error",
     PROBLEM + '''
n = 3
d = 1e-9 * np.arange(1.0, n + 1)
a = ForwardOperator(d, 1e-9, "synthesis", IdentityTransform(), Identity(n, n), nparams=n)
b = ForwardOperator(d, np.full(n, 1e-9), "synthesis", IdentityTransform(), Identity(n, n), nparams=n)
assert np.allclose(a.calc_gradg(np.zeros(n)), b.calc_gradg(np.zeros(n)))
''')

seed("mask-edge", "C26", [(U, "if np.abs(90 - np.degrees(t)) < size:", "if np.abs(90 - np.degrees(t)) <= size:")],
     "a ring exactly as far from the equator as the mask is wide", "pixels on the edge of the mask are masked",
     '''
import numpy as np
from pxmcmc.utils import build_mask
assert build_mask(3, 18)[1].any()  # the ring at colatitude 108 degrees
''')

seed("map2alm-pol", "C28", [(U, "        return hp.map2alm(image, lmax, **kwargs)", "        return hp.map2alm(image, lmax, **{\"pol\": False, **kwargs})")],
     "a polarised map (T, Q, U)", "polarised maps are decomposed as three scalar ones",
     '''
import numpy as np, healpy as hp
from pxmcmc.utils import map2alm
m = [np.cos(np.arange(192) * k) for k in (0.3, 0.7, 1.1)]
assert np.allclose(map2alm(m, 6), hp.map2alm(m, 6))
''')

seed("report-rate", "C35", [(M, "                    acceptanceRate=np.mean(self.acceptance_trace),", "                    acceptanceRate=np.mean(self.acceptance_trace[-100:]),")],
     "a report after more than 100 iterations of PxMALA", "the acceptance rate reported is that of the last 100 proposals",
     '''
import io, re, contextlib
import numpy as np
from pxmcmc.forward import ForwardOperator
from pxmcmc.measurements import Identity
from pxmcmc.transforms import IdentityTransform
from pxmcmc.prior import L1
from pxmcmc.mcmc import PxMALA, PxMCMCParams
np.random.seed(3)
n = 3
op = ForwardOperator(np.arange(1.0, n + 1), 0.5, "synthesis", IdentityTransform(), Identity(n, n), nparams=n)
m = PxMALA(op, L1("synthesis", None, None, 0.2), PxMCMCParams(lmda=0.2, delta=0.3, nsamples=400, nburn=0, ngap=1, verbosity=400), tune_delta=False)
out = io.StringIO()
with contextlib.redirect_stdout(out):
    m.run(np.zeros(n))
rate = float(re.search(r"acceptanceRate: (\\S+)", out.getvalue()).group(1))
assert abs(rate - np.mean(m.acceptance_trace)) < 1e-7, (rate, np.mean(m.acceptance_trace))
''')

seed("tracked-tuning", "C07", [(M, "        self.tune_delta = tune_delta\n", "        self.tune_delta = tune_delta\n        if tune_delta:  # to judge the tuning by\n            self.logPi = np.zeros(self.nsamples)\n")],
     "a tuning PxMALA that does not track the log posterior", "an untracked quantity is present",
     '''
import numpy as np
from pxmcmc.forward import ForwardOperator
from pxmcmc.measurements import Identity
from pxmcmc.transforms import IdentityTransform
from pxmcmc.prior import L1
from pxmcmc.mcmc import PxMALA, PxMCMCParams
n = 3
op = ForwardOperator(np.arange(1.0, n + 1), 0.5, "synthesis", IdentityTransform(), Identity(n, n), nparams=n)
m = PxMALA(op, L1("synthesis", None, None, 0.2), PxMCMCParams(lmda=0.2, delta=0.1, nsamples=4, nburn=0, ngap=1, verbosity=0, track=["chain"]))
m.run(np.zeros(n))
assert not hasattr(m, "logPi")
''')

seed("region-finite", "C24", [("pxmcmc/uncertainty.py", "    return np.quantile(logpis, alpha)", "    return np.quantile(logpis[np.isfinite(logpis)], alpha)")],
     "samples of no probability at all (log posterior -inf)", "the threshold ignores them",
     '''
import numpy as np
from pxmcmc.uncertainty import credible_region_threshold
assert credible_region_threshold(np.array([-np.inf, -3.0, 2.0]), 0.5) == -3.0
''')

seed("mask-refused", "C27", [("pxmcmc/plotting.py", "    if mask is not None:", "    if mask is not None and mask.shape == f.shape:")],
     "a mask at the resolution of the map although the plot is oversampled", "the mask is silently ignored",
     '''
import numpy as np
import matplotlib
matplotlib.use("Agg")
from pxmcmc.plotting import plot_map
try:
    plot_map(np.ones((4, 7)), oversample=False, mask=np.ones((5, 9), dtype=bool))
except Exception:
    pass
else:
    raise SystemExit("a mask of the wrong size was ignored")
''')

seed("counts-whole", "C14", [("pxmcmc/measurements.py", "        return np.sqrt((2.0 * ngal_m) / (self.var_e))", "        return np.sqrt((2.0 * np.asarray(ngal_m, dtype=int)) / (self.var_e))")],
     "galaxy counts that are not whole numbers (densities)", "the counts are cut to whole numbers",
     '''
import numpy as np
from pxmcmc.measurements import WeakLensing
wl = WeakLensing(3, ngal=np.full((3, 5), 2.5))
assert np.allclose(wl.inv_cov, np.sqrt(5) / 0.37)
''')

seed("path-link", "C30", [("experiments/phasevel/main.py", "    if path.exists(args.pathsfile):", "    if path.exists(args.pathsfile) and not path.islink(args.pathsfile):")],
     "a path file that is a symbolic link", "the path matrix is built again and replaces the link",
     '''
import os, subprocess, sys, tempfile
import numpy as np
from scipy import sparse
L, n = 4, 3
d = tempfile.mkdtemp()
np.savetxt(f"{d}/data.txt", [[10, 20, -30, 100, 1.5, 0.5, 1, 1], [-40, 60, 50, -70, -2.0, 0.25, 1, 4], [0, 0, 10, 170, 0.5, 1.0, 2, 9]])
sparse.save_npz(f"{d}/real.npz", sparse.csr_matrix(np.ones((n, L * (2 * L - 1)))))
os.symlink(f"{d}/real.npz", f"{d}/link.npz")
code = ("import sys, runpy, pxmcmc.mcmc as m; m.MYULA.run = lambda self, start_point=None: None; "
        "sys.argv = ['main.py', 'data.txt', 'link.npz', '--L', '4']; runpy.run_path(%r, run_name='__main__')" % os.path.abspath("experiments/phasevel/main.py"))
r = subprocess.run([sys.executable, "-c", code], cwd=d, env=dict(os.environ, PYTHONPATH=os.getcwd()), capture_output=True, text=True)
assert r.returncode == 0, r.stderr
assert os.path.islink(f"{d}/link.npz")
''')

seed("near-fit", "C11", [("pxmcmc/forward.py", "        return self.measurement.adjoint(\n            (self", "        if np.allclose(preds, self.data):\n            return self.measurement.adjoint(np.zeros_like(preds))\n        return self.measurement.adjoint(\n            (self")],
     "predictions within 1e-5 of the data, with errors as small", "the gradient is taken to vanish at what looks like a perfect fit",
     '''
import numpy as np
from pxmcmc.forward import ForwardOperator
from pxmcmc.measurements import Identity
from pxmcmc.transforms import IdentityTransform
d = np.array([1.0, -2.0])
op = ForwardOperator(d, 1e-6, "synthesis", IdentityTransform(), Identity(2, 2), nparams=2)
p = d + np.array([4e-6, -4e-6])
assert np.allclose(op.calc_gradg(p), (p - d) / 1e-12, rtol=1e-6)
''')

seed("region-close", "C24", [("pxmcmc/uncertainty.py", "    return True if logpi >= threshold else False", "    return bool(logpi >= threshold or np.isclose(logpi, threshold))")],
     "a log posterior just below the threshold", "samples below the threshold are in the region",
     '''
from pxmcmc.uncertainty import in_credible_region
assert not in_credible_region(-100000.5, -100000.0)
assert in_credible_region(-100000.0, -100000.0)
''')

seed("mask-fraction", "C14", [("pxmcmc/measurements.py", "            self.mask = mask.astype(bool)", "            self.mask = mask.astype(int) > 0")],
     "a mask of coverage fractions", "pixels that are covered in part are dropped",
     '''
import numpy as np
from pxmcmc.measurements import WeakLensing
m = np.ones((3, 5))
m[1] = 0.5
m[2, 2] = 0
wl = WeakLensing(3, mask=m)
assert wl.forward(np.ones(15, dtype=complex)).size == 14
''')

seed("complex-covariance", "C12", [("pxmcmc/forward.py", "            return sparse.csr_matrix(np.linalg.inv(sig_d))", "            return sparse.csr_matrix(np.linalg.inv(sig_d).real)")],
     "complex data whose errors are correlated between real and imaginary parts", "the imaginary part of the inverse covariance is lost",
     '''
import numpy as np
from pxmcmc.forward import ForwardOperator
from pxmcmc.measurements import Identity
from pxmcmc.transforms import IdentityTransform
C = np.array([[1, 0.4j], [-0.4j, 1]])
op = ForwardOperator(np.zeros(2, dtype=complex), C, "synthesis", IdentityTransform(), Identity(2, 2), nparams=2)
r = np.array([1, 1j])
assert np.allclose(op.invcov @ r, np.linalg.solve(C, r))
''')

seed("component-empty", "C32", [("pxmcmc/forward.py", "        if measurement is not None:", "        if measurement:")],
     "a measurement operator that is an empty container", "the operator does not get the measurement it was given",
     '''
import numpy as np
from pxmcmc.forward import ForwardOperator
from pxmcmc.measurements import Identity
from pxmcmc.transforms import IdentityTransform
class Cached(Identity):
    def __init__(self, *a):
        super().__init__(*a)
        self.cache = {}
    def __len__(self):
        return len(self.cache)
m = Cached(2, 2)
op = ForwardOperator(np.ones(2), 1.0, "analysis", IdentityTransform(), m, nparams=2)
assert op.measurement is m
''')

seed("step-capped", "C03", [("pxmcmc/mcmc.py", "        super().__init__(forward, prox, mcmcparams)\n        self.tune_delta = tune_delta", "        super().__init__(forward, prox, mcmcparams)\n        self.delta = min(self.delta, 4 * self.lmda)\n        self.tune_delta = tune_delta")],
     "a step size more than four times lmda", "the first proposals are made with a smaller step than the user asked for",
     '''
import numpy as np
from pxmcmc.forward import ForwardOperator
from pxmcmc.measurements import Identity
from pxmcmc.transforms import IdentityTransform
from pxmcmc.prior import L1
from pxmcmc.mcmc import PxMALA, PxMCMCParams
op = ForwardOperator(np.ones(2), 1.0, "synthesis", IdentityTransform(), Identity(2, 2), nparams=2)
m = PxMALA(op, L1("synthesis", None, None, 0.2), PxMCMCParams(lmda=0.01, delta=0.3, nsamples=1, nburn=0, ngap=1, verbosity=0), tune_delta=False)
m.run(np.zeros(2))
assert m.deltas_trace == [0.3]
''')

seed("step-absolute", "C05", [("pxmcmc/mcmc.py", "        self.delta = min(max(delta, self.lmda * 1e-8), self.lmda / 2)", "        self.delta = max(min(delta, self.lmda / 2), self.lmda * 1e-8, 1e-12)")],
     "parameters so small that lmda is below 2e-12", "the tuned step size exceeds lmda/2",
     '''
import numpy as np
from pxmcmc.forward import ForwardOperator
from pxmcmc.measurements import Identity
from pxmcmc.transforms import IdentityTransform
from pxmcmc.prior import L1
from pxmcmc.mcmc import PxMALA, PxMCMCParams
op = ForwardOperator(np.ones(2), 1.0, "synthesis", IdentityTransform(), Identity(2, 2), nparams=2)
m = PxMALA(op, L1("synthesis", None, None, 1e-13), PxMCMCParams(lmda=1e-13, delta=4e-14, nsamples=20, nburn=0, ngap=1, verbosity=0))
m.run(np.ones(2))
assert max(m.deltas_trace) <= 0.5e-13 * (1 + 1e-9)
''')

seed("mask-flat", "C14", [("pxmcmc/measurements.py", "            self.mask = mask.astype(bool)", "            self.mask = mask.reshape(-1, mask.shape[-1] if mask.ndim > 1 else 2 * L - 1).astype(bool)")],
     "a mask given as a flat vector of the right length", "it is accepted although it is not of the map's shape",
     '''
import numpy as np
from pxmcmc.measurements import WeakLensing
try:
    WeakLensing(3, mask=np.ones(15))
except ValueError:
    pass
else:
    raise SystemExit("accepted")
WeakLensing(3, mask=np.ones((3, 5)))
''')
