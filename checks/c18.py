"""C18: wavelet priors weight coefficients by pixel area and wavelet power."""
import math

import numpy as np
import pys2let
import pyssht

from mc.core import Violation
from mc.linear import nondefault, unit
from checks.c16 import blocks
from pxmcmc.prior import S2_Wavelets_L1, S2_Wavelets_L1_Power_Weights

PROPERTY = "C18"
LEVEL = "model_checking"
ASSUMES = ["pys2let's tiling and pyssht's transforms and sample positions are correct (third-party)",
           "the quadrature weight of a pixel is the integral of the band-limited map that is 1 there and 0 elsewhere"]
RULE = "every prior configuration in the box; the weight of every single coefficient is read off prior(e_k) and the prox and compared with the formula"
BOUNDS = {"quick": "L 2..7, B {1.3,1.5,2,3}, J_min 0..2, (dirs,spin) {(1,0),(2,0),(1,2),(2,1)}, eta {0,1,2,-1}; L 8, 10, 16, 20, 32, 48, 64 for B {1.5,2}, J_min 0..2, (1,0), eta {0,1}; 9 more B from 1.1 to 6.5 with L 9, 23",
          "thorough": "L 2..12, B {1.3,1.5,2,2.5,3,4}, J_min 0..3, (dirs,spin) {(1,0),(2,0),(3,0),(1,2),(2,1),(3,2)}, eta {0,0.5,1,2,-1}; L 16, 20, 32, 48, 64, 80 for B {1.5,2,3}, J_min 0..3, (1,0), eta {0,1}; 9 more B from 1.1 to 6.5 with L 9..57"}


def cases(tier):
    q = tier == "quick"
    out = []
    for L in (64, 48, 8, 10, 16, 20, 32) if q else (80, 64, 48, 16, 20, 32):
        for B in (1.5, 2) if q else (1.5, 2, 3):
            for J in range(3 if q else 4):
                out.append({"L": L, "B": B, "J": J, "dirs": 1, "spin": 0, "etas": [0, 1]})
    for L in (9, 23) if q else (9, 15, 23, 41, 57):
        for B, J in ((1.1, 9), (1.2, 5), (1.7, 0), (1.9, 1), (2.02, 1), (2.6, 0), (3.3, 1), (5, 0), (6.5, 0)):
            if pys2let.pys2let_j_max(B, L, J) >= J:
                out.append({"L": L, "B": B, "J": J, "dirs": 1, "spin": 0, "etas": [0, 1, 2.5, -0.5]})
    for L in range(2, 8 if q else 13):
        for B in (1.3, 1.5, 2, 3) if q else (1.3, 1.5, 2, 2.5, 3, 4):
            for J in range(3 if q else 4):
                if pys2let.pys2let_j_max(B, L, J) < J:
                    continue
                for d, s in [(1, 0), (2, 0), (1, 2), (2, 1)] + ([] if q else [(3, 0), (3, 2)]):
                    if d <= L and s < L:
                        out.append({"L": L, "B": B, "J": J, "dirs": d, "spin": s, "etas": [0, 1, 2, -1] if q else [0, 0.5, 1, 2, -1]})
    return out


_quad = {}


def quad(el):
    """Integral of the map that is 1 on one pixel, by way of its (0,0) coefficient; one per latitude."""
    if el not in _quad:
        w = []
        for t in range(el):
            m = np.zeros((el, 2 * el - 1), dtype=complex)
            m[t, 0] = 1
            w.append(math.sqrt(4 * math.pi) * pyssht.forward(m, el)[0].real)
        _quad[el] = np.repeat(w, 2 * el - 1)
    return _quad[el]


def sin_theta(el):
    return np.repeat([math.sin(math.pi * (2 * t + 1) / (2 * el - 1)) for t in range(el)], 2 * el - 1)


def check(label, p, w, T, rec):
    n = len(w)
    tol = 1e-9 * max(1.0, float(np.max(np.abs(w))))
    for k in range(0, n, 1 + n // 1200):  # all of them also below, through the thresholds
        for u in (1.0, -2j) if k % 5 == 0 else (1.0,):
            got = p.prior(unit(n, k, u))
            rec.step()
            if not abs(got - abs(u) * w[k]) <= tol:
                raise Violation(f"{label}: coefficient {k} is weighted with {got / abs(u)}, expected {w[k]}")
    x = np.cos(1 + 1.3 * np.arange(n)) * np.exp(0.7j * np.arange(n))
    if not abs(p.prior(x) - np.sum(np.abs(x) * w)) <= tol * n:
        raise Violation(f"{label}: the prior of a generic vector is {p.prior(x)}, expected {np.sum(np.abs(x) * w)}")
    x = np.full(n, 10.0 + 3 * np.max(np.abs(w)) * np.max(T))
    thr = x - np.asarray(p.proxf(x.copy()))
    if not np.allclose(thr, T * w, rtol=1e-9, atol=tol):
        k = int(np.argmax(np.abs(thr - T * w)))
        raise Violation(f"{label}: coefficient {k} is thresholded at {thr[k]}, expected {T if np.isscalar(T) else T[k]} * {w[k]}")
    rec.trace()
    rec.state(label)
    rec.outcome(np.round(w, 8).tobytes())


def run_case(case, rec):
    L, B, J, d, s = (case[k] for k in ("L", "B", "J", "dirs", "spin"))
    f = lambda v: v
    bl, blk = blocks(L, B, J, d)
    reps = [1] + [2 * d - 1] * (len(bl) - 1)
    lab = f"L={L} B={B} J_min={J} dirs={d} spin={s}"
    w = np.concatenate([np.tile(quad(el), r) for el, r in zip(bl, reps)])
    for T in (0.3, 0.1 + 0.01 * np.arange(len(w))):
        check(f"S2_Wavelets_L1({lab}, {'scalar' if np.isscalar(T) else 'vector'} T)", S2_Wavelets_L1("synthesis", f, f, T, L, B, J, **nondefault(dirs=d, spin=s)), w, T, rec)
    phi, psi = pys2let.wavelet_tiling(B, L, d, J, s)
    pow_s = float(np.sum(np.abs(phi) ** 2))
    pow_w = [float(np.sum(np.abs(psi[:, j]) ** 2)) for j in range(psi.shape[1])]
    for eta in case["etas"]:
        build = lambda: S2_Wavelets_L1_Power_Weights("synthesis", f, f, 0.3, L, B, J, **nondefault(dirs=d, spin=s, eta=eta))
        if min([pow_s] + pow_w) == 0:
            try:
                build()
            except ValueError:
                rec.trace()
                rec.state("refused", lab, eta)
                rec.extra["refused"] += 1
                continue
            raise Violation(f"power weights for {lab}, which has a vanishing scale, are not refused")
        parts = []
        for j, (el, r) in enumerate(zip(bl, reps)):
            c = 2 * math.pi ** 2 / ((pow_s if j == 0 else pow_w[j - 1]) * el * (2 * el - 1)) * sin_theta(el)
            if j:
                a = np.abs(psi[:, j - 1])
                peaks = np.array([np.max(a[l * l : (l + 1) ** 2]) for l in range(L)])
                top = np.flatnonzero(peaks >= peaks.max() * (1 - 1e-12))
                if len(top) > 1 and top[-1] != top[0]:
                    rec.extra["tied_peaks"] += 1
                peak = int(top[0])
                if peak == 0 and eta < 0:
                    break
                c = c * float(peak) ** eta
            parts.append(np.tile(c, r))
        else:
            check(f"S2_Wavelets_L1_Power_Weights({lab}, eta={eta})", build(), np.concatenate(parts), 0.3, rec)
    for cls in (S2_Wavelets_L1, S2_Wavelets_L1_Power_Weights):
        for st in ("analysis", "other", ""):
            try:
                cls(st, f, f, 0.3, L, B, J, dirs=d, spin=s)
            except Exception:
                rec.step()
                continue
            raise Violation(f"{cls.__name__} accepts the setting {st!r}")
    rec.sample(case)
