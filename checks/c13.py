"""C13: every measurement operator is linear with an exact adjoint."""
import itertools

import numpy as np
from scipy import sparse

from mc.core import Violation
from mc.linear import adjoint_pair, gen, unit
from pxmcmc.measurements import Identity, PathIntegral, WeakLensing, WeakLensingHarmonic

PROPERTY = "C13"
LEVEL = "model_checking"
ASSUMES = ["the operators are linear maps up to rounding: linearity is itself checked on i*e_k, all pair sums (small sizes) and generic vectors"]
RULE = "every operator in the box; forward and adjoint are turned into matrices on the complete complex basis and compared entry by entry"
BOUNDS = {"quick": "identity up to 6x6 and 7 sizes to 900; all path matrices over {-1,0,2} up to 2x2 and over {0,1} up to 2x3 and 3x2, complex ones up to 2x2, 4 sparse formats; path matrices to 250x700; entries from 1e-12 to 1e6; harmonic lensing L 1..6, 9, 12, 20, 28; pixel lensing L=1 and L=2 with all masks, L=3 with all masks of <= 2 or >= 14 pixels, L 4..5 with 4 masks, L 7, 8, 12 with one; 4 galaxy-count maps",
          "thorough": "as quick with identity up to 9x9, all path matrices over {-1,0,2} up to 2x3/3x2 and {0,1} up to 3x3, all 32768 masks at L=3, L 4..6 with 12 masks each, L 7, 8, 10, 12, 14 with one, harmonic lensing L 1..16, 20, 28, 36"}


def cases(tier):
    q = tier == "quick"
    out = []
    N = 6 if q else 9
    for a in range(1, N + 1):
        out.append({"op": "identity", "ndata": a, "N": N})
    shapes = [((1, 1), [-1, 0, 2]), ((1, 2), [-1, 0, 2]), ((2, 1), [-1, 0, 2]), ((2, 2), [-1, 0, 2]), ((2, 3), [0, 1]), ((3, 2), [0, 1]),
              ((1, 2), ["c0", "c1", "c2"]), ((2, 2), ["c0", "c1", "c2"])]
    if not q:
        shapes += [((2, 3), [-1, 0, 2]), ((3, 2), [-1, 0, 2]), ((3, 3), [0, 1])]
    for shp, alpha in shapes:
        for first in alpha:
            out.append({"op": "path", "shape": shp, "alpha": alpha, "first": first})
    out += [{"op": "pathbig"}, {"op": "pathhuge", "shape": (250, 700)}, {"op": "pathhuge", "shape": (600, 120)}]
    out += [{"op": "identitybig", "ndata": a, "npix": b} for a, b in ((1, 200), (200, 1), (40, 66), (66, 40), (153, 153), (900, 500), (500, 900))]
    for L in (7, 8, 12) if q else (7, 8, 10, 12, 14):
        out.append({"op": "lens", "L": L, "pattern": 9, "ngal": 1})
    for L in (1, 2, 3, 4, 5, 6, 9, 12, 20, 28) if q else [*range(1, 17), 20, 28, 36]:
        out.append({"op": "lensharm", "L": L})
    out.append({"op": "lens", "L": 1, "masks": [0, 1], "ngal": 1})
    for lo in range(0, 64, 8):
        for g in range(4):
            out.append({"op": "lens", "L": 2, "masks": list(range(lo, lo + 8)), "ngal": g})
    if q:
        ms = [m for m in range(2 ** 15) if bin(m).count("1") <= 2 or bin(m).count("1") >= 14]
        for i in range(0, len(ms), 12):
            out.append({"op": "lens", "L": 3, "masks": ms[i : i + 12], "ngal": (i // 12) % 4})
    else:
        for i in range(0, 2 ** 15, 64):
            out.append({"op": "lens", "L": 3, "masks": [i, i + 64], "ngal": (i // 64) % 4})
    for L in (4, 5) if q else (4, 5, 6):
        for k in range(4 if q else 12):
            out.append({"op": "lens", "L": L, "pattern": k, "ngal": k % 4})
    return out


def bits(m, L):
    n = L * (2 * L - 1)
    return np.array([(m >> i) & 1 for i in range(n)]).reshape(L, 2 * L - 1)


def pattern(k, L):
    n = L * (2 * L - 1)
    i = np.arange(n)
    m = [np.ones(n), i % 2, i % 3 != 0, i < n // 2, i >= n // 3, i % (2 * L - 1) < L, i // (2 * L - 1) != 0, i == n - 1, i != 0,
         (i * 7) % 5 > 1, i // (2 * L - 1) == L // 2, np.zeros(n)][k]
    return np.asarray(m, dtype=float).reshape(L, 2 * L - 1)


def ngal(k, L):
    i = np.arange(L * (2 * L - 1)).reshape(L, 2 * L - 1)
    return [None, 0.35 + 1.3 * i, np.full(i.shape, 30), 3 * (i % 3)][k]


def entry(a):
    return {"c0": 0, "c1": 1 + 2j, "c2": -0.5j}.get(a, a)


def wrong_lengths(label, fn, n, rec):
    for k in range(0, n + 4):
        if k == n:
            continue
        try:
            fn(gen(k))
        except Exception:
            rec.outcome("refused")
            continue
        raise Violation(f"{label}: input of length {k} accepted, {n} needed")


def run_case(case, rec):
    op = case["op"]
    if op == "identity":
        a = case["ndata"]
        for b in range(1, case["N"] + 1):
            m = Identity(a, b)
            lab = f"Identity({a},{b})"
            A = adjoint_pair(lab, m.forward, m.adjoint, b, a, rec)
            if not np.array_equal(A, np.eye(a, b)):
                raise Violation(f"{lab}: forward is not truncation / zero padding: {A!r}")
            wrong_lengths(lab + " forward", m.forward, b, rec)
            wrong_lengths(lab + " adjoint", m.adjoint, a, rec)
            rec.state(lab)
    elif op == "identitybig":
        a, b = case["ndata"], case["npix"]
        m = Identity(a, b)
        A = adjoint_pair(f"Identity({a},{b})", m.forward, m.adjoint, b, a, rec)
        if not np.array_equal(A, np.eye(a, b)):
            raise Violation(f"Identity({a},{b}): forward is not truncation / zero padding")
        rec.state(repr(case))
    elif op == "path":
        r, c = case["shape"]
        for rest in itertools.product(case["alpha"], repeat=r * c - 1):
            D = np.array([entry(x) for x in (case["first"],) + rest]).reshape(r, c)
            check_path(D, rec)
    elif op == "pathbig":
        D = np.real(gen(7 * 15)).reshape(7, 15)
        D[np.abs(D) < 0.4] = 0
        check_path(D, rec)
        check_path(gen(5 * 6).reshape(5, 6), rec)
        check_path(np.arange(12).reshape(3, 4), rec)
        D = np.real(gen(40 * 120)).reshape(40, 120)
        D[np.abs(D) < 0.8] = 0
        check_path(D, rec)
        # weights of very different size
        i = np.arange(6 * 9).reshape(6, 9)
        check_path(np.where(i % 4 == 3, 0, np.cos(i) * 10.0 ** ((i * 5) % 19 - 12)), rec)
    elif op == "pathhuge":
        r, c = case["shape"]
        D = np.real(gen(r * c)).reshape(r, c)
        D[np.abs(D) < 0.4] = 0
        check_path(D, rec, ("csr", "csc"))
    elif op == "lensharm":
        L = case["L"]
        m = WeakLensingHarmonic(L)
        adjoint_pair(f"WeakLensingHarmonic({L})", m.forward, m.adjoint, L * L, L * L, rec)
        rec.state(repr(case))
    else:
        L = case["L"]
        for mk in case.get("masks", [None]):
            mask = bits(mk, L) if mk is not None else pattern(case["pattern"], L)
            ng = ngal(case["ngal"], L)
            if mk is not None and mk % 3 == 1:
                mask = mask.astype(float)
            elif mk is not None and mk % 3 == 2:
                mask = mask.astype(bool)
            elif mk is not None and mk % 2:
                mask = mask * 0.5
            m = WeakLensing(L, mask=mask, ngal=ng)
            nd = int(np.count_nonzero(mask))
            adjoint_pair(f"WeakLensing(L={L}, mask={mask.tolist()}, galaxy counts #{case['ngal']})", m.forward, m.adjoint,
                         L * (2 * L - 1), nd, rec)
            rec.state(L, mk, case.get("pattern"), case["ngal"])
    rec.sample(case if op != "lens" else {k: (v[:3] if isinstance(v, list) else v) for k, v in case.items()})


def check_path(D, rec, formats=("csr", "csc", "coo", "bsr")):
    for fmt in formats:
        if fmt != "csr" and D.size > 4 and np.iscomplexobj(D):
            continue
        P = getattr(sparse, fmt + "_matrix")(D)
        m = PathIntegral(P)
        lab = f"PathIntegral({D.tolist() if D.size < 500 else D.shape}, {fmt})"
        A = adjoint_pair(lab, m.forward, m.adjoint, D.shape[1], D.shape[0], rec)
        if not np.allclose(A, D, rtol=1e-9, atol=1e-12):
            raise Violation(f"{lab}: forward is not multiplication by the matrix: {A!r}")
        B = np.array([m.adjoint(unit(D.shape[0], k)) for k in range(D.shape[0])]).conj()
        if not np.allclose(A, D, rtol=1e-9, atol=0) or not np.allclose(B, D, rtol=1e-9, atol=0):
            raise Violation(f"{lab}: small entries of the matrix are lost")
        if not np.array_equal(P.toarray(), D):
            raise Violation(f"{lab}: the path matrix was modified")
        wrong_lengths(lab + " forward", m.forward, D.shape[1], rec)
        wrong_lengths(lab + " adjoint", m.adjoint, D.shape[0], rec)
        rec.state(lab)
