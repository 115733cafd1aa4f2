"""C31: the examples' plot scripts summarise the saved run.

Each experiments/*/plot.py is run from /repo as a script, in a scratch directory, on results files written by save_mcmc for
every history in the box.  The drawing functions of pxmcmc.plotting (C27) are replaced by recorders that remember what they
were given and under which name it was saved.
"""
import inspect
import io
import itertools
import math
import os
import re
import runpy
import shutil
import sys
import tempfile
import types
import warnings

import healpy as hp
import numpy as np
import pys2let
import pyssht
from matplotlib.figure import Figure
from scipy import sparse

import pxmcmc
import pxmcmc.plotting as plotting
import pxmcmc.utils
from mc.core import Violation
from pxmcmc.mcmc import PxMCMCParams
from pxmcmc.measurements import WeakLensing
from pxmcmc.saving import save_mcmc
from pxmcmc.transforms import SphericalWaveletTransform

PROPERTY = "C31"
LEVEL = "model_checking"
KIND = "inputs"
ASSUMES = ["pxmcmc.plotting draws what it is given (C27), transforms and masks are right (C15, C26)"]
RULE = "every combination of example, setting, log-posterior order (ties included), burn-in, suffix, array saving and masking options in the box: every figure, array and printed number is compared with one computed here from the saved samples"
BOUNDS = {"quick": "3 examples x 2 settings x all orders and ties of 3 log posteriors (3 values) x burn 0..2 (paired off), with and without noise, suffix, --save_npy, --no-mask; L 6; ratios of all arrays of 1..3 entries over 5 values; runs of 7..300 samples, L to 28 (258 for lensing), log posteriors of -3e7..900, samples times 1e-6..3e4",
          "thorough": "as quick with L 6..8 and 4 samples; runs of 7..2500 samples, L to 40"}
ROOT = os.path.dirname(os.path.abspath(pxmcmc.__path__[0]))
EXP = os.path.join(ROOT, "experiments")
NAMES = ["plot_map", "plot_evolution", "plot_chain_sample", "plot_wavelet_maps"]
REAL = {n: getattr(plotting, n) for n in NAMES}
_build_mask = pxmcmc.utils.build_mask
_masks = {}
LOG = []


class Fig(Figure):
    def __init__(self, kind, given, part=None):
        super().__init__()
        self.kind, self.given, self.part = kind, given, part

    def savefig(self, fname, *a, **k):
        LOG.append((os.path.abspath(str(fname)), self))
        open(str(fname), "wb").close()


def nmaps(L, B, J):
    return pys2let.pys2let_j_max(B, L, J) - J + 2


def _rec(kind):
    def f(*args, **kw):
        b = inspect.signature(REAL[kind]).bind(*args, **kw)
        b.apply_defaults()
        given = {}
        for k, v in b.arguments.items():
            given.update(v if b.signature.parameters[k].kind is inspect.Parameter.VAR_KEYWORD else {k: v})
        given = {k: np.array(v) if isinstance(v, np.ndarray) else v for k, v in given.items()}
        if kind == "plot_wavelet_maps":
            return [Fig(kind, given, i) for i in range(nmaps(*(given[k] for k in ("L", "B", "J_min"))))]
        return Fig(kind, given)

    return f


def mask(L, size=20):
    if (L, size) not in _masks:
        _masks[L, size] = _build_mask(L, size)
    return _masks[L, size].copy()


def script(example, argv, cwd):
    del LOG[:]
    old = sys.argv, os.getcwd(), list(sys.path), sys.stdout, sys.stderr
    path = os.path.join(EXP, example, "plot.py")
    sys.argv = [path] + [str(a) for a in argv]
    sys.path[0:0] = [os.path.dirname(path)]
    out = sys.stdout = io.StringIO()
    sys.stderr = io.StringIO()
    os.chdir(cwd)
    for n in NAMES:
        setattr(plotting, n, _rec(n))
    pxmcmc.utils.build_mask = mask
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            runpy.run_path(path, run_name="__main__")
        return None, out.getvalue()
    except SystemExit as e:
        return (e if e.code else None), out.getvalue()
    except Exception as e:
        return e, out.getvalue()
    finally:
        sys.argv, _, sys.path[:], sys.stdout, sys.stderr = old
        os.chdir(old[1])
        for n in NAMES:
            setattr(plotting, n, REAL[n])
        pxmcmc.utils.build_mask = _build_mask


def close(a, b, rtol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=rtol * (np.max(np.abs(b)) if b.size else 0) + 1e-300)


def quantile(cols, p):
    """Linear-interpolation quantile of every column."""
    s = np.sort(cols, axis=0)
    h = p * (len(s) - 1)
    i = int(np.floor(h))
    return s[i] + (h - i) * (s[min(i + 1, len(s) - 1)] - s[i])


def snr(a, b):
    return 20 * np.log10(np.sqrt(np.sum(np.abs(a) ** 2)) / np.sqrt(np.sum(np.abs(b) ** 2)))


def cases(tier):
    q = tier == "quick"
    n = 3 if q else 4
    out = [{"ex": "snr", "n": k} for k in range(1, 4 if q else 5)]
    for ex in ("earthtopography", "phasevel", "weaklensing"):
        k = 0
        for L, setting, order in itertools.product([6] if q else [6, 7, 8], ("synthesis", "analysis"), itertools.product(range(3), repeat=n)):
            if ex == "phasevel" and setting == "analysis":  # refused by its main.py
                continue
            burns = range(n) if order in ((0, 1, 2), (2, 0, 1), (1, 1, 0, 2), (2, 0, 1, 1)) else [k % n]
            for burn in burns:
                out.append({"ex": ex, "L": L, "setting": setting, "order": list(order), "burn": burn, "suffix": ["", "_x", ".v2"][k % 3], "npy": (k // 2) % 2, "noise": (k // 3) % 2, "nomask": (k // 5) % 2})
                k += 1
        if ex == "weaklensing":  # maps that need no oversampling
            out += [{"ex": ex, "L": L, "setting": "analysis", "order": [0, 2, 1], "burn": 1, "suffix": "", "npy": 1, "noise": 0, "nomask": L % 2} for L in ((258,) if q else (255, 256, 257, 258))]
        # longer runs, larger maps, log posteriors of other sizes (close ones far from zero), samples of other sizes
        for L, setting, nn, burn, lp, amp in [(28, "synthesis", 7, 4, "far", 1.0), (6, "synthesis", 240, 90, "far", 1e-6), (6, "analysis", 300, 101, "near", 3e4), (9, "synthesis", 40, 39, "positive", 1.0), (12, "analysis", 25, 0, "far", 1e3), (16, "synthesis", 12, 1, "near", 1e4)] + ([] if q else [(32, "synthesis", 30, 10, "near", 1.0), (40, "analysis", 15, 3, "far", 1e-3), (6, "synthesis", 2500, 1000, "positive", 1.0)]):
            if ex == "phasevel" and setting == "analysis":
                setting = "synthesis"
            for peak in (0, burn, nn // 2, nn - 1):
                out.append({"ex": ex, "L": L, "setting": setting, "order": nn, "peak": peak, "lp": lp, "amp": amp, "burn": burn, "suffix": ["", "_x", ".v2"][k % 3], "npy": (k // 2) % 2, "noise": k % 2, "nomask": (k // 5) % 2})
                k += 1
    return out


def logposts(case):
    if isinstance(case["order"], list):
        return -np.array([[40.0, 7.5, 3.25][o] for o in case["order"]])
    x = np.array([1.0 + (7 * j * j + 3 * j) % 29 for j in range(case["order"])])  # misfits; the peak has the least
    x[case["peak"]] = 0.5
    return {"far": -3.0e7 - 0.01 * x, "near": -1e-3 * x, "positive": 900.0 - x}[case["lp"]]


def ratios(case, rec):
    """utils.snr and utils.norm of all short arrays over an alphabet, of scaled, shaped and large ones."""
    def check(a, b, what):
        keep = a.copy(), b.copy()
        for x in (a, b):
            want = math.sqrt(math.fsum(abs(complex(v)) ** 2 for v in x.ravel() / np.max(np.abs(x)))) * float(np.max(np.abs(x))) if np.any(x) else 0.0
            got = pxmcmc.utils.norm(x)
            if np.shape(got) != () or np.iscomplexobj(got) or not abs(got - want) <= 1e-12 * want:
                raise Violation(f"norm({what}) = {got!r}, expected {want}")
        if np.any(a) and np.any(b):
            want = snr(a, b)
            got = pxmcmc.utils.snr(a, b)
            if np.shape(got) != () or np.iscomplexobj(got) or not abs(got - want) <= 1e-9 * max(1, abs(want)):
                raise Violation(f"snr({what}) = {got!r}, expected {want}")
        if not (np.array_equal(a, keep[0]) and np.array_equal(b, keep[1])):
            raise Violation(f"snr({what}) changed its input")
        rec.step()
        rec.state(what)
    n = case["n"]
    letters = [0.0, 1.5, -2.0, 0.3 - 0.4j, 2j]
    vectors = [np.array(v) for v in itertools.product(letters, repeat=n)]
    for a in vectors:
        for b in vectors if n < 3 else vectors[:: 7]:
            check(a, b, f"{a.tolist()}, {b.tolist()}")
            if not (a.imag.any() or b.imag.any()):
                check(a.real, b.real, f"{a.real.tolist()}, {b.real.tolist()}")
        rec.trace()
    for size in (5, 60, 3000):
        x, y = np.sin(1.0 + np.arange(size * n)), np.cos(3.0 + 2 * np.arange(size * n)) * (1 + 0.5j)
        for fa, fb in itertools.product((1e-100, 1e-9, 1, 1e6, 1e100), repeat=2):
            check(fa * x, fb * y, f"{size * n} entries of size {fa}, complex ones of size {fb}")
            check(fa * x.reshape(size, n), fb * y.reshape(size, n), f"{size}x{n} entries of size {fa}, complex ones of size {fb}")
        check(np.arange(1, size * n + 1), np.full(size, 3), f"{size * n} and {size} integers")
        rec.trace()
        rec.outcome(size, n)
    rec.sample(case)


def run_case(case, rec):
    if case["ex"] == "snr":
        return ratios(case, rec)
    ex, L, setting, burn = case["ex"], case["L"], case["setting"], case["burn"]
    B, J = (1.5 if ex == "earthtopography" else 2), 2
    d = tempfile.mkdtemp(prefix="c31-")
    try:
        tr = SphericalWaveletTransform(L, B, J)
        npix = L * (2 * L - 1)
        shape = (L, 2 * L - 1)
        logpi = logposts(case)
        n = len(logpi)
        nparams = tr.ncoefs if setting == "synthesis" else npix
        ii, jj = np.arange(nparams), np.arange(n)[:, None]
        chain = case.get("amp", 1.0) * (((3 + 2 * jj) * (ii + 1) ** 2 + 5 * jj) % 23 * 0.1 - 1.0)
        run = types.SimpleNamespace(logPi=logpi, L2s=np.arange(1.0, n + 1), priors=np.arange(n) + 0.5, chain=chain)
        extra = {"L": L, "B": B, "J_min": J, "nparams": nparams, "setting": setting, "time": "0:00:01"}
        if ex == "earthtopography":
            noise = np.array([((5 * i) % 13 - 6) * 30.0 for i in range(npix)]) if case["noise"] else 0
            extra.update(noise=noise, sigma=1, scaleafrica=0)
        save_mcmc(run, PxMCMCParams(nsamples=n), d, filename="run", **extra)
        images = np.array([tr.inverse(x) if setting == "synthesis" else x for x in chain]).real
        best = int(np.argmax(logpi))
        MAP = images[best].reshape(shape)
        kept = images[burn:]
        mean = kept.mean(axis=0).reshape(shape)
        ci = (quantile(kept, 0.975) - quantile(kept, 0.025)).reshape(shape)
        wvlt = chain[best] if setting == "synthesis" else tr.forward(chain[best])
        outdir = os.path.join(d, "figs")
        os.mkdir(outdir)
        keep = tol = None
        if ex == "earthtopography":
            topo = np.array([((5 * i * i + 11 * i) % 89 - 40) * 60.0 for i in range(hp.nside2npix(8))])
            hp.write_map(os.path.join(d, "ETOPO1_Ice_hpx_256.fits"), topo, dtype=float)
            truth = pyssht.inverse(pys2let.lm_hp2lm(hp.map2alm(topo, L - 1), L), L, Reality=True) / 1000
            tol = 1e-6
        elif ex == "phasevel":
            truth = np.array([((3 * i * i + i) % 31 - 15) * 0.1 for i in range(npix)]).reshape(shape)
            np.save(os.path.join(d, "GDM40_L28.npy"), truth)
            A = sparse.csr_matrix([[((i + 2) * (j + 1)) % 5 * 0.1 if (i + j) % 3 else 0.0 for j in range(npix)] for i in range(4)])
            sparse.save_npz(os.path.join(d, "0S254L28.npz"), A)
            obs = np.array([1.5, -2.0, 0.5, 3.0])
            rows = np.ones((4, 8))
            rows[:, 4] = obs
            np.savetxt(os.path.join(d, "synthetic_GDM40_0S254_L28.txt"), rows)
            tol = 1e-9
        else:
            kappa = np.array([((5 * i * i + 11 * i) % 89 - 40) * 0.05 for i in range(hp.nside2npix(16 if L < 64 else 128))])
            hp.write_map(os.path.join(d, "takahasi_4096_000_zs16_kappa.fits"), kappa, dtype=float)
            el = np.repeat(np.arange(L), 2 * np.arange(L) + 1)
            truth = pyssht.inverse(pys2let.lm_hp2lm(hp.map2alm(kappa, lmax=L - 1), L) * np.exp(-el * (el + 1) * np.radians(50 / 60) ** 2 / 2), L)
            tol = 2e-3
            keep = np.ones(shape, bool) if case["nomask"] else mask(L, 20).astype(bool)
        argv = [os.path.join(d, "run.hdf5"), outdir, "--burn", burn]
        if case["suffix"]:
            argv += ["--suffix", case["suffix"]]
        if case["npy"]:
            argv.append("--save_npy")
        if ex == "weaklensing" and case["nomask"]:
            argv.append("--no-mask")
        what = f"{ex}/plot.py {' '.join(map(str, argv[2:]))} on {n} {setting} samples at L={L} with log posteriors {logpi.tolist()[:6]}{" ..." if n > 6 else ""}{", samples times %g" % case["amp"] if "amp" in case else ""}"
        if ex == "earthtopography" and case["noise"]:
            what += " and noise"
        before = open(argv[0], "rb").read()
        e, text = script(ex, argv, d)
        if e is not None:
            raise Violation(f"{what}: {type(e).__name__}: {e}")
        if open(argv[0], "rb").read() != before:
            raise Violation(f"{what}: the results file was changed")
        figs = {}
        for name, f in LOG:
            if os.path.dirname(name) != outdir or not name.endswith(case["suffix"] + ".png"):
                raise Violation(f"{what}: a figure was saved as {name}")
            figs[os.path.basename(name)[: -len(case["suffix"] + ".png")]] = f
        diff, dmean = (truth - MAP).real, (truth - mean).real
        absolute = ex != "earthtopography"
        want = {"MAP": MAP, "mean": mean, "ci_map": ci, "diff": np.abs(diff) if absolute else diff}
        if ex == "earthtopography":
            want.update(truth=truth, diff_mean=dmean)
            if case["noise"]:
                want["noise"] = noise.reshape(shape) / 1000
            elif "noise" in figs:
                raise Violation(f"{what}: noise was plotted though none was added")
        if ex == "weaklensing":
            want["diffmean"] = np.abs(dmean)
        bls = [min(int(np.ceil(B ** j)), L) for j in range(J, J + len(figs) + 4)]
        if ex == "phasevel" and setting == "synthesis":
            i0 = 0
            for i, bl in enumerate(bls):
                if i0 >= nparams:
                    break
                blk = chain[burn:, i0 : i0 + bl * (2 * bl - 1)]
                want[f"ci_map_scale{i}"] = (quantile(blk, 0.975) - quantile(blk, 0.025)).reshape(bl, 2 * bl - 1)
                i0 += bl * (2 * bl - 1)
        for name, arr in want.items():
            if name not in figs:
                raise Violation(f"{what}: no figure {name}; figures: {sorted(figs)}")
            f = figs[name]
            got = f.given.get("f")
            if f.kind != "plot_map" or not close(got, arr, tol if "diff" in name or name == "truth" else 1e-9):
                raise Violation(f"{what}: figure {name} does not show {name} of the saved samples (largest difference {np.max(np.abs(np.asarray(got) - arr)) if np.shape(got) == arr.shape else np.shape(got)})")
            if ex == "weaklensing":
                m = f.given.get("mask")
                H = max(L, 256)
                hi = np.ones((H, 2 * H - 1), bool) if case["nomask"] else mask(H, 20).astype(bool)
                if not np.array_equal(m, ~hi):
                    raise Violation(f"{what}: figure {name} is drawn with the wrong mask")
            rec.step()
        if "evolution" not in figs or figs["evolution"].kind != "plot_evolution" or not all(np.array_equal(figs["evolution"].given[k], y) for k, y in (("logposteriors", run.logPi), ("L2s", run.L2s), ("L1s", run.priors))):
            raise Violation(f"{what}: the evolution plot does not show the saved log posteriors, misfits and priors")
        if "MAP_wvlt" not in figs or figs["MAP_wvlt"].kind != "plot_chain_sample" or not close(figs["MAP_wvlt"].given["X"], wvlt):
            raise Violation(f"{what}: MAP_wvlt does not show the wavelet coefficients of the maximum a posteriori sample")
        if ex == "phasevel":
            ms = sorted(k for k in figs if k.startswith("mean_scale"))
            for i, k in enumerate(ms):
                f = figs[k]
                if f.kind != "plot_wavelet_maps" or f.part != i or not close(np.asarray(f.given["f"]).reshape(shape), mean) or tuple(f.given[k] for k in ("L", "B", "J_min")) != (L, B, J):
                    raise Violation(f"{what}: {k} is not the mean's map at scale {i}")
            if len(ms) != nmaps(L, B, J):
                raise Violation(f"{what}: {len(ms)} scales of the mean were plotted")
        arrays = {"mean": mean, "MAP": MAP, "CI": ci, "diff": diff, "diff_mean": dmean}
        for k, arr in arrays.items():
            p = os.path.join(outdir, k + case["suffix"] + ".npy")
            if os.path.exists(p) != bool(case["npy"]):
                raise Violation(f"{what}: {k}.npy was {'not ' if case['npy'] else ''}saved")
            if case["npy"] and not close(np.real(np.load(p)), arr, tol if "diff" in k else 1e-9):
                raise Violation(f"{what}: {k}.npy does not hold the {k} of the saved samples")
        w = keep if keep is not None else np.ones(shape, bool)
        numbers = {"MAP SNR": (snr(truth[w], diff[w]), "dB"), "Mean SNR": (snr(truth[w], dmean[w]), "dB")}
        if ex == "earthtopography" and case["noise"]:
            numbers["Input SNR"] = (snr(truth, noise / 1000), "dB")
        if ex == "phasevel":
            for k, im in (("MAP", MAP), ("Mean", mean)):
                numbers[k + " R2E"] = (np.sum((A @ im.ravel() - obs) ** 2) / np.sum(obs ** 2), "")
        if ex == "weaklensing":
            wl = WeakLensing(L, keep)
            o = wl.forward(truth.ravel())
            for k, im in (("MAP", MAP), ("Mean", mean)):
                numbers[k + " R2E"] = (np.sum(np.abs(wl.forward(im.ravel().astype(complex)) - o) ** 2) / np.sum(np.abs(o) ** 2), "")
        for k, (v, unit) in numbers.items():
            m = re.search(re.escape(k) + r":\s*(\S+)", text)
            if not m or abs(float(m.group(1)) - v) > (0.0101 if unit else 0.011 * abs(v)):
                raise Violation(f"{what}: printed {k} {m.group(1) if m else 'nothing'}, the saved samples give {v:.4g}")
        rec.trace()
        rec.state(repr(case))
        rec.outcome(*(np.round(x, 6).tobytes() for x in (MAP, mean, ci)))
        rec.sample({k: case[k] for k in ("ex", "setting", "order", "burn")})
    finally:
        shutil.rmtree(d, ignore_errors=True)
