"""C14: weak lensing maps convergence to masked, weighted shear."""
import itertools
import math

import numpy as np
import pyssht

from mc.core import Violation
from mc.linear import gen
from checks.c13 import bits, ngal, pattern
from pxmcmc.measurements import WeakLensing, WeakLensingHarmonic

PROPERTY = "C14"
LEVEL = "model_checking"
ASSUMES = ["pyssht's spin transforms are correct (third-party, not part of the repository)"]
RULE = "every harmonic (l,m) with coefficients 1 and i through every operator in the box, against the explicit kernel, mask order and weight; every malformed bandlimit, signal, shape and mask in the box must be refused"
BOUNDS = {"quick": "harmonic kernel and Kaiser-Squires for L 1..10 and 8 bandlimits to 256; pixel operator for L=2 with all masks x 4 galaxy-count maps, L=3 with 122 masks, L 4..6 with 4 patterns, L 7, 8, 10, 12, 20, 32 with one; NaN at every pixel (L 1..4); signal and mask shapes up to 7x7",
          "thorough": "harmonic kernel for L 1..20 and every third to 300; all 32768 masks at L=3, L 4..8 with 12 patterns, L 9, 10, 12, 16, 20, 32, 40 with one; NaN at every pixel (L 1..6); shapes up to 12x12"}


def cases(tier):
    q = tier == "quick"
    out = [{"kind": "harm", "L": L} for L in range(1, 11 if q else 21)]
    out += [{"kind": "harmbig", "L": L} for L in ([20, 32, 33, 64, 100, 128, 200, 256] if q else range(21, 300, 3))]
    for g in range(4):
        for lo in range(0, 64, 16):
            out.append({"kind": "pix", "L": 2, "masks": list(range(lo, lo + 16)), "ngal": g})
    if q:
        ms = [m for m in range(2 ** 15) if bin(m).count("1") <= 2] + [2 ** 15 - 1]
        for i in range(0, len(ms), 8):
            out.append({"kind": "pix", "L": 3, "masks": ms[i : i + 8], "ngal": (i // 8) % 4})
    else:
        for i in range(0, 2 ** 15, 128):
            out.append({"kind": "pix", "L": 3, "masks": list(range(i, i + 128)), "ngal": (i // 128) % 4})
    for L in (7, 8, 10, 12, 20, 32) if q else (9, 10, 12, 16, 20, 32, 40):
        out.append({"kind": "pix", "L": L, "pattern": 9, "ngal": L % 4})
    for L in range(4, 7 if q else 9):
        for k in range(4 if q else 12):
            out.append({"kind": "pix", "L": L, "pattern": k, "ngal": k % 4})
    for L in range(1, 5 if q else 7):
        out.append({"kind": "nan", "L": L})
        out.append({"kind": "shapes", "L": L, "max": 7 if q else 12})
    out.append({"kind": "bandlimit"})
    out.append({"kind": "default", "Ls": [1, 2, 3, 4, 5]})
    return out


def kernel(l):
    return 0.0 if l < 2 else -math.sqrt((l + 2) * (l - 1) / ((l + 1) * l))


def run_case(case, rec):
    k = case["kind"]
    if k == "harm":
        L = case["L"]
        m = WeakLensingHarmonic(L)
        for l in range(L):
            for mm in range(-l, l + 1):
                for u in (1, 1j, -2.5 + 0.5j):
                    i = l * l + l + mm
                    e = np.zeros(L * L, dtype=complex)
                    e[i] = u
                    for name, f in (("forward", m.forward), ("adjoint", m.adjoint)):
                        got = np.asarray(f(e.copy()))
                        rec.step()
                        if got.shape != (L * L,) or not np.allclose(got, kernel(l) * e, rtol=1e-9, atol=1e-12):
                            raise Violation(f"WeakLensingHarmonic({L}).{name} on (l,m)=({l},{mm}) with coefficient {u}: {got!r}")
                    back = np.asarray(m.sks_estimate(m.forward(e.copy())))
                    want = e if l >= 2 else 0 * e
                    if not np.allclose(back, want, rtol=1e-9, atol=1e-12):
                        raise Violation(f"Kaiser-Squires at L={L} does not invert the operator on (l,m)=({l},{mm}): {back!r}")
                    direct = np.asarray(m.sks_estimate(e.copy()))
                    want = e / kernel(l) if l >= 2 else 0 * e
                    if not np.allclose(direct, want, rtol=1e-9, atol=1e-12):
                        raise Violation(f"Kaiser-Squires at L={L} of (l,m)=({l},{mm}) is {direct!r}")
                    rec.state(L, l, mm, u)
        x = gen(L * L)
        low = np.arange(L * L) < 4
        if not np.allclose(m.sks_estimate(m.forward(x)), np.where(low, 0, x), rtol=1e-9, atol=1e-12):
            raise Violation(f"Kaiser-Squires at L={L} does not invert the operator on l>=2")
        rec.trace()
        rec.outcome("harm", L)
    elif k == "harmbig":
        L = case["L"]
        m = WeakLensingHarmonic(L)
        kern = np.array([kernel(l) for l in range(L) for _ in range(2 * l + 1)])
        low = np.arange(L * L) < 4
        for x in (gen(L * L), gen(L * L, 2).real, np.ones(L * L), np.arange(L * L)):
            keep = x.copy()
            for name, f, want in (("forward", m.forward, kern * x), ("adjoint", m.adjoint, kern * x),
                                  ("sks_estimate", m.sks_estimate, np.where(low, 0, x / np.where(low, 1, kern)))):
                got = np.asarray(f(x))
                rec.step()
                if got.shape != x.shape or not np.allclose(got, want, rtol=1e-12, atol=1e-12):
                    i = int(np.argmax(np.abs(got - want))) if got.shape == x.shape else None
                    raise Violation(f"WeakLensingHarmonic({L}).{name}: coefficient {i} of a generic signal is wrong")
                if not np.array_equal(x, keep):
                    raise Violation(f"WeakLensingHarmonic({L}).{name} changed its input")
        rec.trace()
        rec.state(L)
        rec.outcome("harmbig", L)
    elif k in ("pix", "default"):
        if k == "default":
            for L in case["Ls"]:
                pix(L, None, None, "no mask", rec)
        else:
            L = case["L"]
            for mk in case.get("masks", [None]):
                mask = bits(mk, L) if mk is not None else pattern(case["pattern"], L)
                # anything but 0 leaves a pixel in
                mask = mask * (1, 2, 0.5, -1, 1.0, True)[(mk if mk is not None else L + case["ngal"]) % 6]
                pix(L, mask, ngal(case["ngal"], L), f"mask {mask.tolist()}, galaxy counts #{case['ngal']}", rec)
    elif k == "nan":
        L = case["L"]
        npix = L * (2 * L - 1)
        m = WeakLensing(L)
        for i in range(npix):
            for bad in (np.nan, complex(0, np.nan)):
                x = gen(npix)
                x[i] = bad
                if L > 2:  # below, the shear of any convergence is zero and no NaN reaches the data
                    refuse(f"WeakLensing({L}).forward with NaN at pixel {i}", lambda: m.forward(x), rec)
                refuse(f"WeakLensing({L}).adjoint with NaN at pixel {i}", lambda: m.adjoint(x), rec)
                refuse(f"WeakLensing({L}).mask_forward with NaN at pixel {i}", lambda: m.mask_forward(x.reshape(L, 2 * L - 1)), rec)
                refuse(f"WeakLensing({L}).mask_adjoint with NaN at pixel {i}", lambda: m.mask_adjoint(x), rec)
        # a NaN under the mask is refused as well
        if L > 1:
            mask = np.ones((L, 2 * L - 1))
            mask[0, 0] = 0
            mm = WeakLensing(L, mask=mask)
            f = gen(npix).reshape(L, 2 * L - 1)
            f[0, 0] = np.nan
            refuse(f"WeakLensing({L}).mask_forward with NaN under the mask", lambda: mm.mask_forward(f), rec)
    elif k == "shapes":
        L = case["L"]
        npix = L * (2 * L - 1)
        m = WeakLensing(L)
        for a, b in itertools.product(range(1, case["max"] + 1), repeat=2):
            if (a, b) != (L, 2 * L - 1):
                refuse(f"WeakLensing({L}, mask of shape {(a, b)})", lambda: WeakLensing(L, mask=np.ones((a, b))), rec)
                refuse(f"WeakLensing({L}, ngal of shape {(a, b)})", lambda: WeakLensing(L, ngal=np.ones((a, b))), rec)
                refuse(f"WeakLensing({L}).mask_forward of shape {(a, b)}", lambda: m.mask_forward(np.ones((a, b), dtype=complex)), rec)
            if a * b != npix:
                refuse(f"WeakLensing({L}).forward of shape {(a, b)}", lambda: m.forward(np.ones((a, b), dtype=complex)), rec)
        for n in range(0, npix + 6):
            if n != npix:
                refuse(f"WeakLensing({L}).forward of length {n}", lambda: m.forward(np.ones(n, dtype=complex)), rec)
                refuse(f"WeakLensing({L}, mask of length {n})", lambda: WeakLensing(L, mask=np.ones(n)), rec)
                if n > 1 and L > 1:
                    refuse(f"WeakLensing({L}).adjoint of length {n}", lambda: m.adjoint(np.ones(n, dtype=complex)), rec)
        if L > 1:
            for nm, sh in (("flat", (npix,)), ("flat column", (npix, 1)), ("stacked", (1, L, 2 * L - 1)), ("trailing", (L, 2 * L - 1, 1))):
                refuse(f"WeakLensing({L}, {nm} mask)", lambda: WeakLensing(L, mask=np.ones(sh)), rec)
                refuse(f"WeakLensing({L}, {nm} galaxy counts)", lambda: WeakLensing(L, ngal=np.ones(sh)), rec)
                refuse(f"WeakLensing({L}).mask_forward of a {nm} map", lambda: m.mask_forward(np.ones(sh, dtype=complex)), rec)
        refuse(f"WeakLensing({L}, transposed mask)", lambda: WeakLensing(L, mask=np.ones((2 * L - 1, L))), rec) if L > 1 else None
    else:
        for L in (0, -1, -2, -5, -100):
            refuse(f"WeakLensing({L})", lambda: WeakLensing(L), rec)
            refuse(f"WeakLensingHarmonic({L})", lambda: WeakLensingHarmonic(L), rec)
    rec.sample({a: (b[:2] if isinstance(b, list) else b) for a, b in case.items()})


def refuse(label, fn, rec):
    rec.step()
    try:
        fn()
    except Exception:
        rec.state(label)
        rec.trace()
        rec.outcome("refused", label.split(" ")[0])
        return
    raise Violation(f"{label}: accepted")


def pix(L, mask, ng, what, rec):
    m = WeakLensing(L, mask=None if mask is None else mask.copy(), ngal=None if ng is None else ng.copy())
    sel = np.ones(L * (2 * L - 1), dtype=bool) if mask is None else mask.ravel() != 0
    w = np.ones(sel.sum()) if ng is None else np.array([math.sqrt(2 * float(v)) / 0.37 for v in ng.ravel()[sel]])
    for l in range(L):
        for mm in range(-l, l + 1):
            e = np.zeros(L * L, dtype=complex)
            e[l * l + l + mm] = 1
            kappa = pyssht.inverse(e, L, Spin=0)
            shear = kernel(l) * pyssht.inverse(e, L, Spin=2) if l >= 2 else np.zeros((L, 2 * L - 1), dtype=complex)
            for u in (1, 1j):
                want = w * (u * shear).ravel()[sel]
                for shaped in (False, True):
                    x = u * kappa
                    got = np.asarray(m.forward(x if shaped else x.ravel()))
                    rec.step()
                    if got.shape != want.shape or not np.allclose(got, want, rtol=1e-9, atol=1e-9 * (1 + np.max(np.abs(w), initial=0))):
                        raise Violation(f"WeakLensing(L={L}, {what}): shear of (l,m)=({l},{mm}), coefficient {u}: {got!r}, expected {want!r}")
            rec.state(L, what, l, mm)
    rec.trace()
    rec.outcome(L, what)
