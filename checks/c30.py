"""C30: the example scripts sample and save the problem asked for on the command line.

Each experiments/*/main.py is run from /repo as a script, in a scratch directory, for every combination of options in
the box.  PxMCMCParams is wrapped so that a run takes two iterations (the parameters asked for are kept), and the run
methods are wrapped so that the sampler that ran can be compared with a problem built here from the options.
"""
import contextlib
import datetime
import glob
import itertools
import os
import re
import runpy
import shutil
import sys
import tempfile
import warnings

import h5py
import healpy as hp
import numpy as np
import pys2let
import pyssht
from scipy import sparse

import pxmcmc
import pxmcmc.forward
import pxmcmc.mcmc
import pxmcmc.measurements
import pxmcmc.prior
import pxmcmc.transforms
import pxmcmc.utils
from mc.core import Violation

PROPERTY = "C30"
LEVEL = "model_checking"
KIND = "inputs"
ASSUMES = ["the operators, priors and samplers are right (C01-C18); the problem is compared with one built from them",
           "the scripts set their run length through PxMCMCParams (it is shortened to two samples, and SKROCK to two stages)"]
RULE = "every combination of command-line options in the box, each script run as a script on the real code; the sampler that ran is compared with an independently assembled problem on a complete set of basis vectors and the saved file with the options"
BOUNDS = {"quick": "topography: 3 algorithms x 2 input formats x noise x sigma x Africa factor x L 5, 8 x 2 mu/delta pairs; phase velocity: 3 algorithms x nsim x L x eta x mu/delta, path file present or missing; lensing: 3 algorithms x L x mu/delta; default options, refused options; noise levels 1e-3..5e4, Africa factors 1..1000, L to 66, delta 1e-10..0.5, 1..150 paths, path files of any name, linked, next to others, path weights 1e-8..1e5",
          "thorough": "as quick with L 4..9, four mu/delta/sigma combinations"}
ROOT = os.path.dirname(os.path.abspath(pxmcmc.__path__[0]))
EXP = os.path.join(ROOT, "experiments")
ALGOS = {"myula": "MYULA", "pxmala": "PxMALA", "skrock": "SKROCK"}
_mc = pxmcmc.mcmc
_Params = _mc.PxMCMCParams
_runs = {n: getattr(_mc, n).run for n in ALGOS.values()}


class Ran:
    def __init__(self):
        self.params, self.samplers, self.depth = [], [], 0


RAN = Ran()


class Params(_Params):
    """The parameters asked for, recorded; the run itself is short."""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        RAN.params.append(dict(vars(self)))
        self.nsamples, self.nburn, self.ngap, self.s = 2, 0, 1, 2


def _wrap(name):
    real = _runs[name]

    def run(self, *a, **k):
        RAN.depth += 1
        try:
            if RAN.depth == 1:
                RAN.samplers.append(self)
            return real(self, *a, **k)
        finally:
            RAN.depth -= 1

    return run


@contextlib.contextmanager
def patched():
    _mc.PxMCMCParams = Params
    for n in ALGOS.values():
        getattr(_mc, n).run = _wrap(n)
    try:
        yield
    finally:
        _mc.PxMCMCParams = _Params
        for n in ALGOS.values():
            getattr(_mc, n).run = _runs[n]


def script(example, argv, cwd):
    """Run the example as a script; the exception it ends with, or None."""
    global RAN
    RAN = Ran()
    old = sys.argv, os.getcwd(), list(sys.path), sys.stderr
    path = os.path.join(EXP, example, "main.py")
    sys.argv = [path] + [str(a) for a in argv]
    sys.path[0:0] = [os.path.dirname(path)]
    sys.stderr = open(os.devnull, "w")
    os.chdir(cwd)
    try:
        with patched(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            runpy.run_path(path, run_name="__main__")
    except SystemExit as e:
        return e if e.code else None
    except Exception as e:
        return e
    finally:
        sys.argv, _, sys.path[:], _ = old
        sys.stderr.close()
        sys.stderr = old[3]
        os.chdir(old[1])


def close(a, b, rtol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=rtol * (np.max(np.abs(b)) if b.size else 0) + 1e-300)


def topo_map(L):
    """A band-limited integer-free topography of a few kilometres."""
    n = L * (2 * L - 1)
    return np.array([((7 * i * i + 3 * i) % 97) * 61.0 - 2500.0 for i in range(n)])


def healpix_map(nside, scale):
    n = hp.nside2npix(nside)
    return np.array([((5 * i * i + 11 * i) % 89 - 40) * scale for i in range(n)])


# ---------------------------------------------------------------- comparison


def compare(what, ran, op, prior, algo, delta, lmda, mu, tol=1e-9):
    if len(ran.samplers) != 1 or len(ran.params) != 1:
        raise Violation(f"{what}: {len(ran.samplers)} samplers were run")
    s = ran.samplers[0]
    if type(s).__name__ != ALGOS[algo]:
        raise Violation(f"{what}: the sampler is {type(s).__name__}")
    p = ran.params[0]
    for k, v in (("delta", delta), ("lmda", lmda), ("mu", mu), ("complex", False)):
        if p[k] != v:
            raise Violation(f"{what}: {k} = {p[k]}, not {v}")
    if s.mu != mu or s.lmda != lmda or algo != "pxmala" and s.delta != delta:
        raise Violation(f"{what}: the sampler used delta {s.delta}, lmda {s.lmda}, mu {s.mu}")
    if s.forward.nparams != op.nparams or s.forward.setting != op.setting:
        raise Violation(f"{what}: {s.forward.nparams} parameters in the {s.forward.setting} setting, not {op.nparams} ({op.setting})")
    if not close(np.asarray(s.forward.data).ravel(), op.data, tol):
        raise Violation(f"{what}: the sampled data are not the data of the input file")
    n = op.nparams
    rng = np.random.RandomState(5)
    for i in list(range(0, n, max(1, n // 200))) + [n, n + 1]:
        x = np.eye(1, n, i)[0] if i < n else rng.standard_normal(n) * 3
        a, b = s.forward.forward(x), op.forward(x)
        if not close(a, b, 1e-9):
            raise Violation(f"{what}: predictions for {'basis vector %d' % i if i < n else 'a dense sample'} are not those of the problem")
        if i % 7 == 0 or i >= n:
            if not close(s.forward.calc_gradg(b), op.calc_gradg(b), max(tol, 1e-8)):
                raise Violation(f"{what}: the data-fidelity gradient is not that of the data, noise and operator asked for")
            x = x * 10
            if not close(s.prior.prior(x), prior.prior(x)):
                raise Violation(f"{what}: the prior is {s.prior.prior(x)}, not {prior.prior(x)}")
            y = x * (lmda * mu)
            if not close(s.prior.proxf(y), prior.proxf(y)):
                raise Violation(f"{what}: the prox of the prior has the wrong threshold or weights")
    return s, p


def saved(what, outdir, algo, setting, jobid, want, s, p, t0):
    files = sorted(os.listdir(outdir))
    if len(files) != 1:
        raise Violation(f"{what}: {len(files)} files in the output directory: {files}")
    m = re.fullmatch(re.escape(f"{algo}_{setting}_") + r"(\d{6}_\d{6})" + re.escape(f"_{jobid}.hdf5"), files[0])
    if not m:
        raise Violation(f"{what}: the output file is called {files[0]}")
    t = datetime.datetime.strptime(m.group(1), "%d%m%y_%H%M%S")
    if not t0 - datetime.timedelta(seconds=1) <= t <= datetime.datetime.now():
        raise Violation(f"{what}: the output file {files[0]} is not named after the time of the run")
    with h5py.File(os.path.join(outdir, files[0]), "r") as f:
        attrs = {k: f.attrs[k] for k in f.attrs}
        for k, v in want.items():
            if k not in attrs or not close(attrs[k], v, 1e-12) if not isinstance(v, str) else attrs.get(k) != v:
                raise Violation(f"{what}: the saved attribute {k} is {attrs.get(k)!r}, not {v!r}")
        for k in ("delta", "lmda", "mu"):
            if attrs.get(k) != p[k]:
                raise Violation(f"{what}: the saved attribute {k} is {attrs.get(k)!r}")
        if "time" not in attrs:
            raise Violation(f"{what}: the run time is not saved")
        if f["chain"].shape[1] != s.forward.nparams or not np.array_equal(f["chain"][()], s.chain):
            raise Violation(f"{what}: the saved chain is not the chain of the run")
        if not np.array_equal(f["logposterior"][()], s.logPi):
            raise Violation(f"{what}: the saved log posteriors are not those of the run")
        if algo == "pxmala" and (not np.array_equal(f["acceptances"][()], s.acceptance_trace) or len(f["deltas"]) != 3):
            raise Violation(f"{what}: PxMALA's traces are not saved, or the step size was not tuned")
        return attrs, f["chain"][0]


# ---------------------------------------------------------------- the examples


def earth(case, d, rec):
    L, fmt = case["L"], case["fmt"]
    outdir = os.path.join(d, "res")
    os.mkdir(outdir)
    if fmt == "hpx":
        m = healpix_map(8, 60.0)
        infile = os.path.join(d, "topo_hpx_8.fits")
        hp.write_map(infile, m, dtype=float)
        topo = pys2let.alm2map_mw(pys2let.lm_hp2lm(hp.map2alm(m, L - 1), L), L, 0)
    else:
        topo = topo_map(L)
        infile = os.path.join(d, "topo_mw_5.npy")
        np.save(infile, topo.reshape(L, 2 * L - 1) if fmt == "mw2" else topo)
    argv = ["--infile", infile, "--outdir", outdir] + ([] if case.get("default_L") else ["--L", L])
    for k in ("algo", "mu", "delta", "sigma", "scaleafrica", "jobid", "setting"):
        if case.get(k) is not None:
            argv += [f"--{k}", case[k]]
    if case.get("noise"):
        argv.append("--makenoise")
    algo, mu, delta, sigma = case.get("algo") or "myula", case.get("mu") or 1, case.get("delta") or 1e-6, case.get("sigma") or 1
    what = "earthtopography " + " ".join(map(str, argv[4:]))
    t0 = datetime.datetime.now()
    np.random.seed(7)
    e = script("earthtopography", argv, d)
    if case.get("refused"):
        return refused(what, e, outdir)
    if e is not None:
        raise Violation(f"{what}: {type(e).__name__}: {e}")
    if len(RAN.samplers) != 1:
        raise Violation(f"{what}: {len(RAN.samplers)} samplers were run")
    data = np.asarray(RAN.samplers[0].forward.data)
    if data.size != L * (2 * L - 1):
        raise Violation(f"{what}: {data.size} data for {L * (2 * L - 1)} pixels")
    noise = 0
    if case.get("noise"):
        sd = (sigma / np.sqrt(pxmcmc.utils.calc_pixel_areas(L)))
        noise = (data.ravel() * 1000 - topo).real
        africa = case.get("scaleafrica") or 0
        # pixels certainly in the block, and pixels that may be
        th = np.pi * (2 * np.arange(L) + 1) / (2 * L - 1)
        ph = 2 * np.pi * np.arange(2 * L - 1) / (2 * L - 1)
        ph = np.where(ph > np.pi, ph - 2 * np.pi, ph)
        w = 360 / (2 * L - 1)
        TH, PH = np.meshgrid(np.degrees(th), np.degrees(ph), indexing="ij")
        inside = (TH > 60 + 1e-6) & (TH < 120 - 1e-6) & (np.abs(PH) < 30 - 1e-6)
        near = (TH > 60 - w - 1e-6) & (TH < 120 + w + 1e-6) & (np.abs(PH) < 30 + w + 1e-6)
        # the noise level the operator uses, pixel by pixel
        s = RAN.samplers[0].forward
        x0 = np.zeros(s.nparams)
        used = np.array([RAN.samplers[0].logpi(x0, data - np.eye(1, data.size, i)[0])[1] for i in range(data.size)])
        used = (1 / np.sqrt(used)).reshape(L, 2 * L - 1)
        factor = used / sd
        if africa:
            ok = np.where(inside, np.isclose(factor, africa), np.where(near, np.isclose(factor, 1) | np.isclose(factor, africa), np.isclose(factor, 1)))
        else:
            ok = np.isclose(factor, 1)
        if not ok.all():
            i = np.argwhere(~ok)[0]
            raise Violation(f"{what}: the noise level of pixel {tuple(i)} (colatitude {TH[tuple(i)]:.1f}, longitude {PH[tuple(i)]:.1f}) is {factor[tuple(i)]:.4g} times sigma/sqrt(area)")
        if africa and not np.isclose(factor, africa).any():
            raise Violation(f"{what}: no pixel is noisier")
        z = noise / used.ravel()
        if np.max(np.abs(z)) > 6 or not 0.5 < np.std(z) < 1.6:
            raise Violation(f"{what}: the added noise is not of the stated level (standardised: max {np.max(np.abs(z)):.3g}, std {np.std(z):.3g})")
        sig = used.ravel()
        topo = topo + noise
    else:
        sig = float(sigma)
    op = pxmcmc.forward.SphericalWaveletTransformOperator(topo / 1000, sig, "synthesis", L, 1.5, 2)
    prior = pxmcmc.prior.S2_Wavelets_L1("synthesis", None, None, 1e-6 * mu, L=L, B=1.5, J_min=2)
    s, p = compare(what, RAN, op, prior, algo, delta, 1e-6, mu)
    want = {"L": L, "B": 1.5, "J_min": 2, "nparams": op.nparams, "sigma": sigma, "scaleafrica": case.get("scaleafrica") or 0, "setting": "synthesis"}
    attrs, first = saved(what, outdir, algo, "synthesis", case.get("jobid") or "0", want, s, p, t0)
    if not np.allclose(attrs["noise"], noise, atol=1e-6, rtol=1e-6) or np.size(attrs["noise"]) != np.size(noise):
        raise Violation(f"{what}: the saved noise is not the noise in the data")
    if case.get("noise"):
        # again: the same noise, another chain
        shutil.rmtree(outdir)
        os.mkdir(outdir)
        e = script("earthtopography", argv, d)
        if e is not None or not np.array_equal(np.asarray(RAN.samplers[0].forward.data), data):
            raise Violation(f"{what}: a second run has other noise in its data")
        if np.array_equal(RAN.samplers[0].chain[0], first):
            raise Violation(f"{what}: a second run repeats the chain of the first: the generator stays seeded")
        rec.trace()
    rec.outcome(np.round(s.chain[0], 6).tobytes())


def phasevel(case, d, rec):
    L, npaths = case["L"], case.get("npaths", 4)
    outdir = os.path.join(d, "res")
    os.mkdir(outdir)
    rows = [[10, 20, -30, 100, 1.5, 0.5, 1, 1], [-40, 60, 50, -70, -2.0, 0.25, 1, 4], [0, 0, 10, 170, 0.5, -1.0, 2, 9], [70, -10, 5, 5, 3.0, 2.0, 1, 2]]
    rows += [[(13 * i) % 150 - 75, (29 * i) % 300 - 150, (31 * i + 7) % 150 - 75, (43 * i) % 300 - 140, (i % 7) - 3.5, 0.1 + (i % 5) * 0.3, 1 + i % 2, [1, 3, 50, 1200, 0.25][i % 5]] for i in range(4, npaths)]
    rows = rows[:npaths]
    infile = os.path.join(d, "data.txt")
    np.savetxt(infile, rows)
    rows = np.array(rows)
    pathsfile = os.path.join(d, case.get("pathname", "paths.npz"))
    # path matrices of other data under similar names
    for other in (pathsfile + ".npz", pathsfile + "_", os.path.join(d, "other.npz")):
        sparse.save_npz(open(other, "wb"), sparse.eye(npaths, L * (2 * L - 1), format="csr"))
    n = L * (2 * L - 1)
    if case.get("paths"):
        A = sparse.csr_matrix([[((i + 2) * (j + 1)) % 5 * 0.1 if (i + j) % 3 else 0.0 for j in range(n)] for i in range(case.get("rows", npaths))]) * case.get("weight", 1)
        target = os.path.join(d, "stored", "matrix of paths") if case.get("link") else pathsfile
        os.makedirs(os.path.dirname(target), exist_ok=True)
        with open(target, "wb") as f:
            sparse.save_npz(f, A)
        if case.get("link"):
            os.symlink(target, pathsfile)
        before = open(pathsfile, "rb").read()
    argv = [infile, pathsfile, "--outdir", outdir] + ([] if case.get("default_L") else ["--L", L])
    for k in ("algo", "mu", "delta", "eta", "jobid", "setting"):
        if case.get(k) is not None:
            argv += [f"--{k}", case[k]]
    if case.get("nsim"):
        argv.append("--nsim")
    algo, mu, delta, eta = case.get("algo") or "myula", case.get("mu") or 1, case.get("delta") or 1e-6, case["eta"] if case.get("eta") is not None else 1
    what = "phasevel " + " ".join(map(str, argv[4:])) + ("" if case.get("paths") else " (no path file)")
    t0 = datetime.datetime.now()
    e = script("phasevel", argv, d)
    if case.get("refused"):
        return refused(what, e, outdir)
    if e is not None:
        raise Violation(f"{what}: {type(e).__name__}: {e}")
    if case.get("paths"):
        if open(pathsfile, "rb").read() != before or os.path.islink(pathsfile) != bool(case.get("link")):
            raise Violation(f"{what}: the path file given was rewritten")
    else:
        from greatcirclepaths import GreatCirclePath

        if not os.path.exists(pathsfile):
            raise Violation(f"{what}: the path matrix was not saved")
        A = sparse.load_npz(pathsfile)
        for i in range(npaths):
            g = GreatCirclePath(rows[i, :2], rows[i, 2:4], "MW", L=L, weighting="average", latlon=True)
            g.get_points(points_per_rad=160)
            g.fill()
            if not close(A[[i]].toarray().ravel(), np.asarray(g.map).ravel()):
                raise Violation(f"{what}: row {i} of the saved path matrix is not path {i}")
    sig = np.abs(rows[:, 5]) * (np.sqrt(rows[:, 7]) if case.get("nsim") else 1)
    op = pxmcmc.forward.PathIntegralOperator(A, rows[:, 4], sig, "synthesis", L, 2, 2)
    prior = pxmcmc.prior.S2_Wavelets_L1_Power_Weights("synthesis", None, None, delta / 2 * mu, L=L, B=2, J_min=2, eta=eta)
    s, p = compare(what, RAN, op, prior, algo, delta, delta / 2, mu)
    want = {"L": L, "B": 2, "J_min": 2, "nparams": op.nparams, "eta": eta, "nsim": bool(case.get("nsim")), "setting": "synthesis"}
    saved(what, outdir, algo, "synthesis", case.get("jobid") or "0", want, s, p, t0)
    rec.outcome(L, eta, np.round(op.calc_gradg(np.zeros(npaths)), 6).tobytes())


def lensing(case, d, rec):
    L = case["L"]
    outdir = os.path.join(d, "res")
    os.mkdir(outdir)
    kappa = healpix_map(16, 0.001)
    infile = os.path.join(d, "kappa.fits")
    hp.write_map(infile, kappa, dtype=float)
    argv = [infile, "--outdir", outdir, "--L", L]
    for k in ("algo", "mu", "delta", "jobid", "setting"):
        if case.get(k) is not None:
            argv += [f"--{k}", case[k]]
    algo, mu, delta = case.get("algo") or "myula", case.get("mu") or 1, case.get("delta") or 1e-6
    what = "weaklensing " + " ".join(map(str, argv[3:]))
    t0 = datetime.datetime.now()
    e = script("weaklensing", argv, d)
    if case.get("refused"):
        return refused(what, e, outdir)
    if e is not None:
        raise Violation(f"{what}: {type(e).__name__}: {e}")
    mask = pxmcmc.utils.build_mask(L, size=10)
    wl = pxmcmc.measurements.WeakLensing(L, mask, ngal=np.full(mask.shape, 30.0))
    lm = pys2let.lm_hp2lm(hp.map2alm(kappa, lmax=L - 1), L)
    el = np.repeat(np.arange(L), 2 * np.arange(L) + 1)
    smooth = np.exp(-el * (el + 1) * np.radians(50 / 60) ** 2 / 2)
    gamma = wl.forward(pyssht.inverse(lm * smooth, L))
    if len(RAN.samplers) == 1:
        data = np.asarray(RAN.samplers[0].forward.data)
        if data.shape != gamma.shape or np.max(np.abs(data - gamma)) > (1e-3 if L < 8 else 1e-4) * np.max(np.abs(gamma)):
            raise Violation(f"{what}: the data are not the masked, weighted shear of the smoothed input convergence (relative difference {np.max(np.abs(data - gamma)) / np.max(np.abs(gamma)) if data.shape == gamma.shape else 'shape'})")
        gamma = data
    tr = pxmcmc.transforms.SphericalWaveletTransform(L, 2, 2)
    op = pxmcmc.forward.ForwardOperator(gamma, 0.37 / np.sqrt(60) * np.ones(len(gamma)), "synthesis", transform=tr, measurement=wl, nparams=tr.ncoefs)
    prior = pxmcmc.prior.S2_Wavelets_L1("synthesis", None, None, delta / 2 * mu, L=L, B=2, J_min=2)
    s, p = compare(what, RAN, op, prior, algo, delta, delta / 2, mu)
    want = {"L": L, "B": 2, "J_min": 2, "nparams": op.nparams, "setting": "synthesis"}
    saved(what, outdir, algo, "synthesis", case.get("jobid") or "0", want, s, p, t0)
    rec.outcome(L, np.round(gamma, 6).tobytes())


def refused(what, e, outdir):
    if e is None:
        raise Violation(f"{what}: accepted")
    if os.listdir(outdir):
        raise Violation(f"{what}: refused with {type(e).__name__}, but output was written")


def cases(tier):
    q = tier == "quick"
    Ls = [5, 8] if q else [4, 5, 6, 7, 8, 9]
    md = [(None, None), (2.5, 2e-5)] if q else [(None, None), (2.5, 2e-5), (0.1, 1e-7), (40.0, 3e-6)]
    out = [{"ex": "earth", "L": 32, "default_L": 1, "fmt": "mw"}, {"ex": "vel", "L": 28, "default_L": 1, "paths": 1}, {"ex": "earth", "L": 6, "fmt": "mw"}, {"ex": "vel", "L": 6, "paths": 1}, {"ex": "wl", "L": 6}]
    for fmt, algo, L, (mu, delta) in itertools.product(("hpx", "mw", "mw2"), ALGOS, Ls, md):
        out.append({"ex": "earth", "L": L, "fmt": fmt, "algo": algo, "mu": mu, "delta": delta, "sigma": None if mu is None else 0.3, "jobid": None if delta is None else "job_7 of a longer series.v2 "})
        for africa in (None, 3):
            out.append({"ex": "earth", "L": L, "fmt": fmt, "algo": algo, "mu": mu, "delta": delta, "noise": 1, "scaleafrica": africa, "sigma": None if mu is None else 0.3})
    for algo, L, (mu, delta), nsim, eta, paths in itertools.product(ALGOS, [6, 8] if q else [6, 7, 8, 10], md, (0, 1), (None, 0.5, 2), (1,)):
        out.append({"ex": "vel", "L": L, "algo": algo, "mu": mu, "delta": delta, "nsim": nsim, "eta": eta, "paths": 1, "jobid": "A 2021-03-04 " if nsim else None})
    for sigma, africa in ((1e-3, 2), (250.0, 40), (5e4, 1000), (0.5, 1)):
        out.append({"ex": "earth", "L": 6, "fmt": "mw", "noise": 1, "scaleafrica": africa, "sigma": sigma})
        out.append({"ex": "earth", "L": 7, "fmt": "hpx", "algo": "skrock", "noise": 0, "scaleafrica": africa, "sigma": sigma})
    out.append({"ex": "earth", "L": 24, "fmt": "mw2", "noise": 1, "scaleafrica": 5})
    out.append({"ex": "earth", "L": 31, "fmt": "mw", "noise": 1, "scaleafrica": 2, "sigma": 3.0})
    out.append({"ex": "earth", "L": 66, "fmt": "mw", "noise": 1, "sigma": 2.0})
    for delta in (1e-10, 1e-3, 0.5):
        out += [{"ex": ex, "L": 6, "fmt": "mw", "paths": 1, "delta": delta, "mu": 1e4 if delta < 1 else 1e-4} for ex in ("earth", "vel", "wl")]
    for n in (1, 2, 37, 150):
        out.append({"ex": "vel", "L": 6, "paths": 1, "npaths": n, "nsim": 1})
    out += [{"ex": "vel", "L": 6, "paths": 1, "weight": w} for w in (1e-7, -1, 1e5)]
    out.append({"ex": "vel", "L": 6, "npaths": 20, "nsim": 1})
    out += [{"ex": "vel", "L": 6, "pathname": "paths"}, {"ex": "vel", "L": 6, "pathname": "my paths.dat", "paths": 1}, {"ex": "vel", "L": 6, "paths": 1, "link": 1}]
    out += [{"ex": "wl", "L": 12}, {"ex": "wl", "L": 16, "algo": "skrock"}]
    out.append({"ex": "vel", "L": 7, "algo": "skrock"})
    out.append({"ex": "vel", "L": 6, "algo": "myula", "nsim": 1, "eta": 0.0})
    for algo, L, (mu, delta) in itertools.product(ALGOS, Ls, md):
        out.append({"ex": "wl", "L": L, "algo": algo, "mu": mu, "delta": delta, "jobid": None if mu else "weak lensing"})
    for ex in ("earth", "vel", "wl"):
        for bad in ({"algo": "hmc"}, {"algo": "MYULA"}, {"setting": "analysis"}, {"setting": "other"}):
            out.append({"ex": ex, "L": 6, "fmt": "mw", "paths": 1, "refused": 1, **bad})
    out.append({"ex": "vel", "L": 6, "paths": 1, "rows": 3, "refused": 1})
    return out


def run_case(case, rec):
    d = tempfile.mkdtemp(prefix="c30-")
    try:
        {"earth": earth, "vel": phasevel, "wl": lensing}[case["ex"]](case, d, rec)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    rec.step()
    rec.trace()
    rec.state(repr(sorted(case.items(), key=str)))
    rec.sample(case)
