"""C16: all parts agree on the layout of coefficient vectors."""
import itertools

import numpy as np
import pys2let
import pyssht

from mc.core import Violation
from mc.linear import nondefault, unit
from pxmcmc.prior import S2_Wavelets_L1, S2_Wavelets_L1_Power_Weights
from pxmcmc.transforms import SphericalWaveletTransform
from pxmcmc.uncertainty import wavelet_credible_interval_range
from pxmcmc.utils import expand_mlm, flatten_mlm

PROPERTY = "C16"
LEVEL = "model_checking"
ASSUMES = ["pys2let.wavelet_tiling gives the harmonic support of every scale (third-party)"]
RULE = ("every vector size and split in the box for flatten/expand; for every transform configuration each harmonic is sent through the transform and must excite exactly the blocks whose "
        "wavelet contains its degree; each coefficient of each prior and credible-interval map is identified individually")
BOUNDS = {"quick": "all splits of <= 6 + 8 coefficients and <= 5 scales of <= 4, and sizes to 20000; transforms L 2..6, B {1.3,1.5,2,3}, J_min 0..2, dirs 1..2, spin 0..2, and on a selection of harmonics L 16, 25, 32, 40; 9 more B from 1.1 to 6.5 with L 7, 12, 17; intervals L 2..100",
          "thorough": "all splits of <= 12 + 12 coefficients and <= 8 scales of <= 8, and sizes to 20000; transforms L 2..8, B {1.3,1.5,2,2.5,3,4}, J_min 0..3, dirs 1..3, spin 0..2, and on a selection of harmonics L 16, 25, 32, 40, 64; 9 more B from 1.1 to 6.5 with L to 50; intervals L 2..100"}
CHUNKS_PER_PROC = 30


def cases(tier):
    q = tier == "quick"
    out = []
    for ns in range(0, 7 if q else 13):
        out.append({"kind": "multires", "nscal": ns, "max": 8 if q else 12})
    for a, b in ((1, 700), (300, 700), (1225, 18775), (4000, 3)):
        out.append({"kind": "multires", "nscal": a, "sizes": [b]})
    for k, n in ((2, 700), (6, 1500), (11, 66), (40, 3)):
        out.append({"kind": "equal", "nscales": k, "sizes": [n]})
    for k in range(1, 6 if q else 9):
        out.append({"kind": "equal", "nscales": k, "max": 4 if q else 8})
    out.append({"kind": "refuse"})
    for L in range(2, 7 if q else 9):
        for B in (1.3, 1.5, 2, 3) if q else (1.3, 1.5, 2, 2.5, 3, 4):
            for J in range(3 if q else 4):
                if pys2let.pys2let_j_max(B, L, J) < J:
                    continue
                for d, s in [(1, 0), (2, 0), (1, 2), (2, 1)] + ([] if q else [(3, 0), (3, 2)]):
                    if d <= L and s < L:
                        out.append({"kind": "blocks", "L": L, "B": B, "J": J, "dirs": d, "spin": s})
    for L in (40, 32, 25, 16) if q else (64, 40, 32, 25, 16):
        for B, J, d, s in ((2, 2, 1, 0), (1.5, 2, 1, 0), (2, 0, 2, 0), (2, 1, 1, 2)):
            out.insert(0, {"kind": "blocks", "L": L, "B": B, "J": J, "dirs": d, "spin": s})
    for L in (7, 12, 17) if q else (7, 9, 12, 17, 27, 50):
        for B, J in ((1.1, 2), (1.2, 3), (1.7, 0), (1.9, 1), (2.02, 1), (2.6, 0), (3.3, 1), (5, 0), (6.5, 0)):
            if pys2let.pys2let_j_max(B, L, J) >= J:
                out.insert(0, {"kind": "blocks", "L": L, "B": B, "J": J, "dirs": 1, "spin": 0})
    for L in range(2, 101):
        for B in (1.1, 1.2, 1.7, 1.9, 2.02, 2.6, 3.3, 5, 6.5) if L < 60 or L % 10 == 0 else (1.1, 2.02):
            J = L % 3
            if pys2let.pys2let_j_max(B, L, J) >= J:
                out.append({"kind": "ci", "L": L, "B": B, "J": J})
    for L in [*range(2, 9), 16, 25, 40, 64] if q else [*range(2, 13), 16, 25, 40, 64, 100]:
        for B in (1.3, 1.5, 2, 3) if q else (1.3, 1.5, 2, 2.5, 3, 4):
            for J in range(3 if q else 4):
                if pys2let.pys2let_j_max(B, L, J) >= J:
                    out.append({"kind": "ci", "L": L, "B": B, "J": J})
    return out


def bandlimits(L, B, J):
    """Scaling function up to B^J, wavelet scale j up to B^(j+1), in an L-limited transform."""
    Jm = pys2let.pys2let_j_max(B, L, J)
    return [min(L, int(np.ceil(B ** j - 1e-9))) for j in range(J, Jm + 2)]


def blocks(L, B, J, dirs):
    size = lambda el: el * (2 * el - 1)
    bl = bandlimits(L, B, J)
    sizes = [size(bl[0])] + [size(b) * (2 * dirs - 1) for b in bl[1:]]
    edges = np.cumsum([0] + sizes)
    return bl, [(int(a), int(b)) for a, b in zip(edges[:-1], edges[1:])]


def _rows(a):
    big = np.full((2 * a.shape[0], a.shape[1]), 9.5, dtype=a.dtype)
    big[::2] = a
    return big[::2]


def _cols(a):
    big = np.full((a.shape[0], 3 * a.shape[1]), 9.5, dtype=a.dtype)
    big[:, 1::3] = a
    return big[:, 1::3]


def _back(a):
    return np.ascontiguousarray(a[::-1, ::-1])[::-1, ::-1]


# the same values as views that are not contiguous in either order
STRIDED = (_rows, _cols, _back, lambda a: _rows(np.ascontiguousarray(a.T)).T)


def eq(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(a == b))


def run_case(case, rec):
    k = case["kind"]
    if k == "multires":
        a = case["nscal"]
        for b in case.get("sizes") or range(case["max"] + 1):
            for dt in (float, complex):
                v = (np.arange(a + b) + 1).astype(dt) * (1 if dt is float else 1 - 2j)
                wav, scal = expand_mlm(v.copy(), nscalcoefs=a)
                if not (eq(scal, v[:a]) and eq(wav, v[a:])):
                    raise Violation(f"expand_mlm of {v!r} with nscalcoefs={a}: wavelets {wav!r}, scaling {scal!r}")
                if not eq(flatten_mlm(wav, scal), v):
                    raise Violation(f"flatten_mlm(expand_mlm(v)) != v for {v!r}, nscalcoefs={a}")
                for view in (np.copy, lambda y: np.repeat(y, 2)[::2], lambda y: y[::-1].copy()[::-1]):
                    f = flatten_mlm(view(v[a:]), view(v[:a]))
                    if not eq(f, v):
                        raise Violation(f"flatten_mlm of {b} wavelet and {a} scaling coefficients gives {f!r}")
                    wav, scal = expand_mlm(view(v), nscalcoefs=a)
                    if not (eq(scal, v[:a]) and eq(wav, v[a:])):
                        raise Violation(f"expand_mlm of {v!r} (a view) with nscalcoefs={a}: wavelets {wav!r}, scaling {scal!r}")
                rec.trace()
                rec.step(3)
                rec.state("multires", a, b, dt.__name__)
                rec.outcome("multires", a, b)
    elif k == "equal":
        ns = case["nscales"]
        for n in case.get("sizes") or range(1, case["max"] + 1):
            for dt in (float, complex):
                v = (np.arange(n * (ns + 1)) + 1).astype(dt) * (1 if dt is float else 1 - 2j)
                wav, scal = expand_mlm(v.copy(), nscales=ns)
                want = np.stack([v[(i + 1) * n : (i + 2) * n] for i in range(ns)], axis=1)
                if not (eq(scal, v[:n]) and eq(wav, want)):
                    raise Violation(f"expand_mlm of {v!r} with nscales={ns}: wavelets {wav!r}, scaling {scal!r}")
                if not eq(flatten_mlm(wav, scal), v):
                    raise Violation(f"flatten_mlm(expand_mlm(v)) != v for nscales={ns}, {n} coefficients each")
                for lay in (np.ascontiguousarray, np.asfortranarray, *STRIDED):
                    if not eq(flatten_mlm(lay(want), v[:n]), v):
                        raise Violation(f"flatten_mlm of {want.shape} wavelet coefficients depends on the memory layout")
                wav, scal = expand_mlm(v.copy(), nscales=ns, flatten_wavs=True)
                if not (eq(scal, v[:n]) and eq(wav, v[n:])) or not eq(flatten_mlm(wav, scal), v):
                    raise Violation(f"expand_mlm with flatten_wavs, nscales={ns}: wavelets {wav!r}, scaling {scal!r}")
                rec.trace()
                rec.step(5)
                rec.state("equal", ns, n, dt.__name__)
                rec.outcome("equal", ns, n)
    elif k == "refuse":
        for n in range(1, 9):
            v = np.arange(n, dtype=float)
            for kw in [{}] + [{"nscales": a, "nscalcoefs": b} for a in range(0, 4) for b in range(0, 4)] + [{"flatten_wavs": True}]:
                try:
                    expand_mlm(v, **kw)
                except Exception:
                    rec.state("refuse", n, repr(kw))
                    rec.trace()
                    continue
                raise Violation(f"expand_mlm of {n} coefficients with {kw} accepted")
    elif k == "blocks":
        layout(case, rec)
    else:
        ci(case, rec)
    rec.sample(case)


def layout(case, rec):
    L, B, J, d, s = (case[x] for x in ("L", "B", "J", "dirs", "spin"))
    lab = f"L={L} B={B} J_min={J} dirs={d} spin={s}"
    t = SphericalWaveletTransform(L, B, J, **nondefault(dirs=d, spin=s))
    bl, blk = blocks(L, B, J, d)
    if blk[-1][1] != t.ncoefs:
        raise Violation(f"{lab}: the scales have {[b - a for a, b in blk]} coefficients, the transform reports {t.ncoefs}")
    if blk[0][1] != t.nscal:
        raise Violation(f"{lab}: the scaling block has {blk[0][1]} coefficients, the transform reports {t.nscal}")
    top = pys2let.pys2let_j_max(B, L, J)
    if t.nscales != top - J + 1 or t.J_max != top:
        raise Violation(f"{lab}: the transform reports scales {J}..{t.J_max} ({t.nscales} of them), the wavelets have {J}..{top}")
    phi, psi = pys2let.wavelet_tiling(B, L, d, J, s)
    sup = np.zeros((len(blk), L, L), dtype=bool)  # scale, l, m present
    for l in range(L):
        sup[0, l, :] = abs(phi[l]) > 1e-9
        for j in range(1, len(blk)):
            sup[j, l, :] = np.max(np.abs(psi[l * l : (l + 1) ** 2, j - 1])) > 1e-9
    every = L < 12
    for l in range(s, L, 1 if every else 3):
        for m in range(-l, l + 1) if every else sorted({-l, 0, l // 2}):
            x = np.asarray(pyssht.inverse(unit(L * L, l * l + l + m), L, Spin=s)).ravel()
            c = np.asarray(t.forward(x))
            rec.step()
            for j, (a, b) in enumerate(blk):
                has = bool(np.max(np.abs(c[a:b]), initial=0) > 1e-9)
                if has != bool(sup[j, l, 0]):
                    raise Violation(f"{lab}: harmonic ({l},{m}) {'excites' if has else 'does not excite'} block {j} (coefficients {a}..{b}), the tiling says otherwise")
            rec.state(lab, l, m)
    rec.trace()
    rec.outcome(lab)
    # priors weight every coefficient exactly once
    for cls in (S2_Wavelets_L1, S2_Wavelets_L1_Power_Weights):
        try:
            p = cls("synthesis", t.inverse, t.inverse_adjoint, 0.7, L, B, J, **nondefault(dirs=d, spin=s))
        except ValueError:
            if cls is S2_Wavelets_L1_Power_Weights and not all(sup[j].any() for j in range(len(blk))):
                continue
            raise
        for v in (np.ones(t.ncoefs), 1j * np.ones(t.ncoefs)):
            try:
                tot = p.prior(v)
                pr = np.asarray(p.proxf(v.copy()))
            except Exception as e:
                raise Violation(f"{lab}: {cls.__name__} does not accept a coefficient vector of the transform: {type(e).__name__}: {e}")
            if pr.shape != v.shape:
                raise Violation(f"{lab}: {cls.__name__} prox has shape {pr.shape}")
        w = [float(p.prior(unit(t.ncoefs, i))) for i in range(0, t.ncoefs, 1 if every else 41)]
        rec.step(len(w))
        if every and abs(sum(w) - tot) > 1e-9 * max(1, tot) or min(w) < -1e-12:
            raise Violation(f"{lab}: {cls.__name__} does not weight every coefficient once")
        for n in (t.ncoefs - 1, t.ncoefs + 1, 2 * t.ncoefs):
            if n > 1:
                try:
                    p.prior(np.ones(n))
                except Exception:
                    continue
                raise Violation(f"{lab}: {cls.__name__} accepts a vector of {n} coefficients, the transform has {t.ncoefs}")
    if d == 1 and s == 0:
        ci(case, rec)


def ci(case, rec):
    L, B, J = case["L"], case["B"], case["J"]
    bl, blk = blocks(L, B, J, 1)
    n = blk[-1][1]
    lab = f"wavelet_credible_interval_range L={L} B={B} J_min={J}"
    for alpha in (0.5, 0.1, None):
        given = () if alpha is None else (alpha,)
        alpha = 0.05 if alpha is None else alpha
        base = np.array([0.0, 1.0, 2.0, 4.0, 3.0])
        q = np.sort(base)
        h = lambda p: np.interp(p * 4, np.arange(5), q)
        rng_ = h(1 - alpha / 2) - h(alpha / 2)
        chain = np.outer(base, np.arange(1, n + 1)) + np.arange(n) * 0.5
        out = wavelet_credible_interval_range(chain.copy(), L, B, J, *given)
        rec.step()
        if len(out) != len(blk):
            raise Violation(f"{lab}: {len(out)} maps for {len(blk)} scales")
        for j, (a, b) in enumerate(blk):
            want = (np.arange(1, n + 1)[a:b] * rng_).reshape(bl[j], 2 * bl[j] - 1)
            if np.shape(out[j]) != want.shape or not np.allclose(out[j], want, rtol=1e-9):
                raise Violation(f"{lab} alpha={alpha}: map {j} has shape {np.shape(out[j])} and starts with {np.ravel(out[j])[:3]}; expected {want.shape}, {want.ravel()[:3]}")
        rec.trace()
        rec.state(lab, alpha)
        rec.outcome(lab, alpha)
