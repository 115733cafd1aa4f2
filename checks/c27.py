"""C27: plots show the data they are given.

The figures are inspected, not rendered. Only the projection of maps onto the plane is taken from pyssht (at a
reduced resolution, to keep one plot at milliseconds): the stand-in below is installed before pxmcmc is imported.
"""
import itertools
import math

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
import pys2let
import pyssht

_real_projection = pyssht.mollweide_projection


def projection(f, L, resolution=500, **kw):
    return _real_projection(f, L, resolution=24, **kw)


pyssht.mollweide_projection = projection

from mc.core import Violation
from mc.linear import gen, nondefault
from pxmcmc import plotting

PROPERTY = "C27"
LEVEL = "model_checking"
ASSUMES = ["pyssht's Mollweide projection and pys2let's wavelet analysis are right; the projection is evaluated at 24 instead of 500 rows",
           "coastlines (cartopy is not installed) and the pixels matplotlib renders are not covered"]
RULE = "every chain over the alphabet, every combination of plot options on every small map, every ordered pair of plots; the artists of the resulting figures are compared with the arguments"
BOUNDS = {"quick": "chains of 1..4 samples over 4 log posteriors, samples of 1..3 over 5 values, 6 map patterns (values from 1e-7 to 2e4) x L 1..3 x all option combinations and 8 colour limits (oversampled: L 2, 255..257, 300), 42 wavelet configurations, 25 ordered pairs of plots",
          "thorough": "chains of 1..6 samples, samples of 1..5, L 1..5 (oversampled: L 1..3, 255..257, 300), 160 wavelet configurations"}
CHUNKS_PER_PROC = 12
LOGP = [-4.0, -2.5, -1.0, 0.5]
VALS = [0, 1.0, -2.0, 1j, 1 - 1j]


def cases(tier):
    q = tier == "quick"
    out = []
    for n in range(1, 5 if q else 7):
        for head in itertools.product(range(4), repeat=min(n, 2)):
            out.append({"op": "evolution", "n": n, "head": list(head)})
    for n in range(1, 4 if q else 6):
        for head in range(5):
            out.append({"op": "sample", "n": n, "head": [head]})
    out += [{"op": "pair", "a": a, "b": b} for a in range(5) for b in range(5)]
    for ov in (False, True):
        for L in range(1, 4 if q else 6):
            if ov and (L != 2 if q else L > 3):
                continue
            for pat in range(4):
                for mask in range(3):
                    for lim in range(4):
                        out.append({"op": "map", "L": L, "pat": pat, "mask": mask, "lim": lim, "over": ov})
            for pat, lim in itertools.product(range(6), range(4, 8)):
                out.append({"op": "map", "L": L, "pat": pat, "mask": 0, "lim": lim, "over": ov})
            for pat in (4, 5):
                for lim in range(4):
                    out.append({"op": "map", "L": L, "pat": pat, "mask": lim % 3, "lim": lim, "over": ov})
    out += [{"op": "mollview", "k": k} for k in range(4)]
    out += [{"op": "series", "n": n} for n in (100, 3000)]
    out += [{"op": "map", "L": L, "pat": 0, "mask": m, "lim": 0, "over": True} for L in (255, 256, 257, 300) for m in (0, 1)]
    for L in (2, 3, 4) if q else (2, 3, 4, 5, 6):
        for B in (1.5, 2, 3):
            for J in (0, 1):
                for d, s in ((1, 0), (2, 0), (1, 1)) if q else ((1, 0), (2, 0), (3, 0), (1, 1), (2, 1), (1, 2), (2, 2)):
                    if pys2let.pys2let_j_max(B, L, J) < J or d > L or s >= L or (q and d == 2 and B == 1.5):
                        continue
                    out.append({"op": "wavelet", "L": L, "B": B, "J": J, "dirs": d, "spin": s})
    return out


# ---------------------------------------------------------------- reading figures


def lines(ax):
    return [(np.asarray(l.get_xdata(orig=True), float), np.asarray(l.get_ydata(orig=True))) for l in ax.lines]


def check_panel(fig, i, want, what, fail):
    ax = fig.axes[i]
    want = np.asarray(want)
    for x, y in lines(ax):
        if len(y) == len(want) and np.array_equal(np.asarray(y), want) and np.array_equal(x, np.arange(len(want))):
            return ax
    fail(f"panel {i} does not draw the {what} {want.tolist()}: {[(x.tolist(), y.tolist()) for x, y in lines(ax)]}")


def markers(ax, n):
    m = [x[0] for x, _ in lines(ax) if len(x) >= 2 and np.all(x == x[0])]
    for c in ax.collections:
        for seg in getattr(c, "get_segments", list)():
            seg = np.asarray(seg)
            if len(seg) and np.all(seg[:, 0] == seg[0, 0]):
                m.append(seg[0, 0])
    return m


def shown(fig):
    """-> the image of a map figure as displayed, bottom row first, left column first; and the image artist."""
    ims = [im for ax in fig.axes for im in ax.images]
    if len(ims) != 1:
        raise Violation(f"the figure holds {len(ims)} images")
    im = ims[0]
    arr = np.ma.filled(np.ma.asarray(im.get_array(), dtype=float), np.nan)
    x0, x1, y0, y1 = im.get_extent()
    if im.origin == "upper":
        y0, y1 = y1, y0  # row 0 lies at the end of the extent
    tr = im.axes.transData
    (sx0, sy0), (sx1, sy1) = tr.transform((x0, y0)), tr.transform((x1, y1))
    if sy0 > sy1:
        arr = arr[::-1]
    if sx0 > sx1:
        arr = arr[:, ::-1]
    return arr, im


def same(a, b, tol=1e-9):
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol * np.nanmax(np.abs(b), initial=1e-12), equal_nan=True)


def pattern(L, pat):
    f = gen(L * (2 * L - 1), pat).real.copy()
    f = f / np.abs(f).max()
    if pat == 1:
        f = f - f.max() - 0.25  # all negative
    elif pat == 2:
        f = np.abs(f) + 0.5 + np.arange(len(f)) * 0.1  # all positive
    elif pat == 3:
        f = np.where(np.arange(len(f)) % 2 == 0, 0.5 + f * 0.1, -2.0 - f * 0.1)
    elif pat == 4:
        f = 2e4 + 3e3 * f
    elif pat == 5:
        f = 1e-7 * f
    return f.reshape(L, 2 * L - 1)


def oversampled(f, L=256):
    flm = pyssht.forward(f.astype(float).copy(), f.shape[0], Reality=True)
    z = np.zeros(L * L, dtype=complex)
    z[: len(flm)] = flm
    return pyssht.inverse(z, L, Reality=True)


def check_map(fig, f, kw, what, fail):
    over = kw.get("oversample", True)
    g = oversampled(f, max(256, f.shape[0])) if over else f.copy()
    top = np.abs(g).max()
    if kw.get("mask") is not None:
        g = g.copy()
        g[kw["mask"]] = np.nan
    want = np.asarray(projection(g, g.shape[0])[0], dtype=float)
    arr, im = shown(fig)
    if not same(arr, want):
        fail(f"{what}: the image is not the projection of the map")
    lo, hi = im.get_clim()
    fin = want[np.isfinite(want)]
    if kw.get("centre0"):
        limits = -top, top
    else:
        limits = tuple(kw[k] if kw.get(k) is not None else auto(fin) if fin.size else None for k, auto in (("vmin", np.min), ("vmax", np.max)))
    # matplotlib widens an empty range and orders an inverted one by itself
    if None in limits or limits[1] - limits[0] > 1e-9 * max(abs(limits[0]), abs(limits[1])):
        for k, got, lim in (("lower", lo, limits[0]), ("upper", hi, limits[1])):
            if lim is not None and not np.isclose(got, lim, rtol=1e-9, atol=1e-9 * max(top, 1e-12)):
                fail(f"{what}: the {k} colour limit is {got}, expected {lim}")
    if bool(kw.get("cbar", True)) != (im.colorbar is not None):
        fail(f"{what}: colour bar {'missing' if im.colorbar is None else 'not requested'}")
    if len(fig.axes) != (2 if kw.get("cbar", True) else 1):
        fail(f"{what}: the figure has {len(fig.axes)} axes")
    if im.colorbar is not None:
        lab = im.colorbar.ax.get_ylabel() + im.colorbar.ax.get_xlabel()
        if lab != kw.get("cbar_label", ""):
            fail(f"{what}: colour bar label {lab!r}")
        if not np.allclose((im.colorbar.vmin, im.colorbar.vmax), (lo, hi)):
            fail(f"{what}: the colour bar spans {(im.colorbar.vmin, im.colorbar.vmax)}, the image {(lo, hi)}")
    if im.get_cmap().name != kw.get("cmap", "turbo"):
        fail(f"{what}: colour map {im.get_cmap().name}")
    if im.get_cmap()(np.ma.masked_invalid([np.nan]))[0][3] != 0:
        fail(f"{what}: masked pixels are not transparent")
    t = im.axes.get_title() or (fig._suptitle.get_text() if fig._suptitle else "")
    return t


# ---------------------------------------------------------------- cases


def run_case(case, rec):
    try:
        globals()["_" + case["op"]](case, rec)
    finally:
        plt.close("all")


def _variants(a):
    yield "plain", a
    ro = a.copy()
    ro.flags.writeable = False
    yield "read-only", ro
    big = np.full(2 * len(a), 7.5, dtype=a.dtype)
    big[::2] = a
    yield "strided", big[::2]


def _evolution(case, rec):
    n = case["n"]
    for tail in itertools.product(range(4), repeat=n - len(case["head"])):
        seq = case["head"] + list(tail)
        lp = np.array([LOGP[i] for i in seq])
        L2, L1 = 1.0 + np.arange(n)[::-1] * 0.5, 10.0 + (np.arange(n) * 7 % 5)
        for name, a in _variants(lp) if n <= 2 else [("plain", lp)]:
            b, c = L2.copy(), L1.copy()

            def fail(m):
                raise Violation(f"plot_evolution({lp.tolist()}, {L2.tolist()}, {L1.tolist()}) [{name}]: {m}", dict(case, head=seq))

            fig = plotting.plot_evolution(a, b, c)
            first = int(np.flatnonzero(lp == lp.max())[0])
            if len(fig.axes) != 3:
                fail(f"{len(fig.axes)} panels")
            for i, (w, what, lab) in enumerate(((-lp, "negated log posteriors", "posterior"), (L2, "misfits", "l2"), (L1, "priors", "l1"))):
                ax = check_panel(fig, i, w, what, fail)
                m = markers(ax, n)
                if not m or any(x != first for x in m):
                    fail(f"panel {i} marks {m}, the first maximum is sample {first}")
                if lab not in ax.get_ylabel().lower():
                    fail(f"panel {i} of the {what} is labelled {ax.get_ylabel()!r}")
            if not (np.array_equal(a, lp) and np.array_equal(b, L2) and np.array_equal(c, L1)):
                fail("an argument was changed")
            plt.close(fig)
            rec.step()
            rec.state("evolution", tuple(seq), name)
            rec.outcome("evolution", first, tuple(seq))
        rec.trace()
    rec.sample({"plot_evolution": lp.tolist(), "marked": first})


def _sample(case, rec):
    n = case["n"]
    for tail in itertools.product(range(5), repeat=n - len(case["head"])):
        seq = case["head"] + list(tail)
        X = np.array([VALS[i] for i in seq], dtype=complex)
        tests = [X] + ([X.real.copy()] if not X.imag.any() else [])
        for x in tests:
            keep = x.copy()

            def fail(m):
                raise Violation(f"plot_chain_sample({keep!r}): {m}", dict(case, head=seq))

            fig = plotting.plot_chain_sample(x)
            if len(fig.axes) != 2:
                fail(f"{len(fig.axes)} panels")
            check_panel(fig, 0, keep.real, "real part", fail)
            check_panel(fig, 1, keep.imag, "imaginary part", fail)
            if not np.array_equal(x, keep):
                fail("the sample was changed")
            plt.close(fig)
            rec.step()
            rec.state("sample", tuple(seq), str(x.dtype))
            rec.outcome("sample", keep.tobytes())
        rec.trace()


def _series(case, rec):
    """Long chains and samples."""
    n = case["n"]
    i = np.arange(n)
    X = gen(n) * 1e3
    for at in (0, 1, n // 2, n - 2, n - 1):
        lp = -1e5 - 1e3 * np.cos(i) ** 2
        lp[at:: 7] = -5e3
        b, c = 1e4 * np.sin(i) ** 2 + 1, 1.0 + i % 13

        def fail(m):
            raise Violation(f"plots of {n} samples: {m}", case)

        fig = plotting.plot_evolution(lp.copy(), b.copy(), c.copy())
        for k, w in enumerate((-lp, b, c)):
            ax = check_panel(fig, k, w, "values", fail)
            if any(x != at for x in markers(ax, n)) or not markers(ax, n):
                fail(f"panel {k} marks {markers(ax, n)}, the first maximum is sample {at}")
        plt.close(fig)
        rec.step()
        rec.state("series", n, at)
    fig = plotting.plot_chain_sample(X)
    check_panel(fig, 0, X.real, "real part", fail)
    check_panel(fig, 1, X.imag, "imaginary part", fail)
    rec.trace()
    rec.outcome("series", n)


def _mollview(case, rec):
    """Healpix maps, with healpy's own options."""
    kw = [{}, {"min": 2, "max": 7}, {"title": "a title", "cmap": "viridis"}, {"min": 0, "nest": True}][case["k"]]
    for nside in (1, 2):
        image = np.arange(12.0 * nside ** 2) - 3
        fig = plotting.mollview(image, **kw)
        ims = [im for ax in fig.axes for im in ax.images]
        vals = np.concatenate([np.ma.filled(np.ma.asarray(im.get_array(), dtype=float), np.nan).ravel() for im in ims])
        ref = plt.figure()
        import healpy as hp

        hp.mollview(image.copy(), fig=ref.number, **kw)
        rims = [im for ax in ref.axes for im in ax.images]
        rvals = np.concatenate([np.ma.filled(np.ma.asarray(im.get_array(), dtype=float), np.nan).ravel() for im in rims])
        if [im.get_clim() for im in ims] != [im.get_clim() for im in rims] or [im.get_cmap().name for im in ims] != [im.get_cmap().name for im in rims]:
            raise Violation(f"mollview with {kw}: colours {[(im.get_clim(), im.get_cmap().name) for im in ims]}, healpy's are {[(im.get_clim(), im.get_cmap().name) for im in rims]}", case)
        v, rv = set(vals[np.isfinite(vals)]), set(rvals[np.isfinite(rvals)])
        if v != rv or (vals.shape == rvals.shape and not np.array_equal(vals, rvals, equal_nan=True)):
            raise Violation(f"mollview with {kw} does not show healpy's projection of the map", case)
        if [ax.get_title() for ax in fig.axes if ax.images][0] != [ax.get_title() for ax in ref.axes if ax.images][0]:
            raise Violation(f"mollview with {kw}: wrong title", case)
        if not np.array_equal(image, np.arange(12.0 * nside ** 2) - 3):
            raise Violation("mollview changed the map", case)
        plt.close("all")
        rec.step()
        rec.state("mollview", case["k"], nside)
    rec.trace()
    rec.outcome("mollview", case["k"])


def _mask(shape, kind):
    i = np.arange(shape[0] * shape[1]).reshape(shape)
    return None if kind == 0 else (i % 3 == 1) if kind == 1 else (i < i.size // 2)


def _map(case, rec):
    L = case["L"]
    f0 = pattern(L, case["pat"])
    top = max(256, L)
    shape = (top, 2 * top - 1) if case["over"] else f0.shape
    for cbar, centre, style in itertools.product((True, False), (False, True), (0, 1)):
        kw = {"oversample": case["over"]}
        if not cbar:
            kw["cbar"] = False
        if centre:
            kw["centre0"] = True
        if style:
            kw.update(title="a title", cmap="viridis", cbar_label="a label")
        lo, hi = [(None, None), (-0.75, None), (None, 4.5), (-0.75, 4.5), (0, None), (None, 0), (0.0, 2e4), (-1e-7, 0.0)][case["lim"]]
        if lo is not None:
            kw["vmin"] = lo
        if hi is not None:
            kw["vmax"] = hi
        if case["mask"]:
            kw["mask"] = _mask(shape, case["mask"])
        if not case["lim"] and not centre and case["mask"] == 2 and np.all(kw["mask"]):
            continue

        def fail(m):
            raise Violation(f"plot_map of a {f0.shape} map, {({k: v for k, v in kw.items() if k != 'mask'})}, mask {case['mask']}: {m}", case)

        f = f0.copy()
        keep = {k: np.copy(v) for k, v in kw.items() if k == "mask"}
        fig = plotting.plot_map(f, **kw)
        t = check_map(fig, f0, dict(kw, **keep), "map", fail)
        if t != kw.get("title", ""):
            fail(f"title {t!r}")
        if not np.array_equal(f, f0):
            fail("the map was changed")
        if "mask" in kw and not np.array_equal(kw["mask"], keep["mask"]):
            fail("the mask was changed")
        plt.close(fig)
        rec.step()
        rec.trace()
        rec.state("map", tuple(sorted(case.items())), cbar, centre, style)
        arr, im = shown(fig)
        rec.outcome("map", arr.tobytes(), im.get_clim())
    if L > 1 and case["mask"] and not case["lim"] and not case["over"]:
        try:
            plotting.plot_map(f0.copy(), oversample=False, mask=_mask((L + 1, 2 * L + 1), case["mask"]))
        except Exception:
            rec.outcome("mask refused")
        else:
            raise Violation(f"plot_map of a {f0.shape} map: a mask of shape {(L + 1, 2 * L + 1)} is ignored", case)
        finally:
            plt.close("all")
    rec.sample({"plot_map": case})


def bandlimits(L, B, J):
    jmax = pys2let.pys2let_j_max(B, L, J)
    return [int(min(math.ceil(B ** j), L)) for j in range(J, jmax + 2)]


def _wavelet(case, rec):
    L, B, J, d, sp = case["L"], case["B"], case["J"], case["dirs"], case["spin"]
    f0 = pattern(L, 0)
    bls = bandlimits(L, B, J)
    wav, scal = pys2let.analysis_px2wav(f0.flatten().astype(complex), B, L, J, d, sp, upsample=0)
    want = [scal.real.copy().reshape(bls[0], -1)]
    start = 0
    for bl in bls[1:]:
        n = bl * (2 * bl - 1)
        want.append(wav[start : start + n].real.copy().reshape(bl, -1))
        start += n * (2 * d - 1)
    assert start == len(wav), "the model does not account for all wavelet coefficients"
    opts = [{}, {"same_scale": False}, {"title": "base", "cbar": False, "cbar_label": "unseen"}, {"same_scale": False, "vmin": -1.0, "vmax": 2.0}, {"vmin": -3.0}, {"vmin": 0.0}, {"same_scale": False, "vmin": 0, "vmax": 0.5}, {"centre0": True, "cmap": "viridis"}]
    for o, over in [(o, False) for o in opts] + ([({}, True)] if L <= 3 and d == 1 else []):
        kw = dict(o, oversample=over)

        def fail(m):
            raise Violation(f"plot_wavelet_maps(L={L}, B={B}, J_min={J}, dirs={d}, spin={sp}, {kw}): {m}", case)

        f = f0.copy()
        figs = plotting.plot_wavelet_maps(f, L, B, J, **nondefault(dirs=d, spin=sp), **kw)
        if len(figs) != len(bls):
            fail(f"{len(figs)} figures for {len(bls)} scales")
        if len({id(x) for x in figs}) != len(figs):
            fail("figures are repeated")
        for i, (fig, w) in enumerate(zip(figs, want)):
            k = {a: b for a, b in kw.items() if a not in ("same_scale", "title")}
            if kw.get("same_scale", True) and i > 0:
                k["vmax"] = wav.real.max()
                if k.get("vmin") is None:
                    k["vmin"] = wav.real.min()
            t = check_map(fig, w, k, f"figure {i}", fail)
            if kw.get("title", "") not in t or (f"cale {i}" if i else "caling") not in t:
                fail(f"figure {i} is titled {t!r}")
            rec.step()
        if not np.array_equal(f, f0):
            fail("the map was changed")
        for fig in figs:
            plt.close(fig)
        rec.trace()
        rec.state("wavelet", tuple(sorted(case.items())), str(o), over)
        rec.outcome("wavelet", len(figs), tuple(bls), str(o))
    rec.sample({"plot_wavelet_maps": case, "bandlimits": bls})


def _fingerprint(fig):
    out = []
    for ax in fig.axes:
        out.append((str(ax.get_position()), ax.get_title(), ax.get_ylabel(), [(x.tobytes(), y.tobytes()) for x, y in lines(ax)],
                    [(np.ma.filled(np.ma.asarray(i.get_array(), dtype=float), np.nan).tobytes(), i.get_clim()) for i in ax.images]))
    return out


def _plot(i):
    if i == 0:
        return [plotting.plot_evolution(np.array([-2.0, -1, -3]), np.array([1.0, 2, 3]), np.array([3.0, 2, 1]))]
    if i == 1:
        return [plotting.plot_chain_sample(np.array([1 + 2j, 0.5]))]
    if i == 2:
        return [plotting.plot_map(pattern(2, 0), oversample=False)]
    if i == 3:
        return plotting.plot_wavelet_maps(pattern(2, 0), 2, 2, 0, oversample=False)
    image = np.arange(12.0)
    fig = plotting.mollview(image)
    arr = np.concatenate([np.ma.filled(np.ma.asarray(im.get_array(), dtype=float), np.nan).ravel() for ax in fig.axes for im in ax.images])
    if set(arr[np.isfinite(arr)]) != set(range(12)) or not np.array_equal(image, np.arange(12.0)):
        raise Violation("mollview does not show the values of the map")
    return [fig]


def _pair(case, rec):
    """A second plot leaves the first alone, and neither depends on the other."""
    ref = {}
    for k in ("b", "a"):
        ref[k] = [_fingerprint(f) for f in _plot(case[k])]
        plt.close("all")
    a = _plot(case["a"])
    if [_fingerprint(f) for f in a] != ref["a"]:
        raise Violation(f"plot {case['a']} is not reproducible", case)
    b = _plot(case["b"])
    if [_fingerprint(f) for f in b] != ref["b"]:
        raise Violation(f"plot {case['b']} depends on plot {case['a']} before it", case)
    if [_fingerprint(f) for f in a] != ref["a"] or {id(x) for x in a} & {id(x) for x in b}:
        raise Violation(f"plot {case['b']} drew on the figure of plot {case['a']}", case)
    rec.step(2)
    rec.trace()
    rec.state("pair", case["a"], case["b"])
    rec.outcome("pair", case["a"], case["b"])
