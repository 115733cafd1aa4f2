"""C17: proxf is the proximal map of the prior."""
import cmath
import itertools

import numpy as np
import pys2let

from mc.core import Violation
from mc.linear import gen, unit
from pxmcmc.prior import L1, S2_Wavelets_L1, S2_Wavelets_L1_Power_Weights
from pxmcmc.transforms import SphericalWaveletTransform

PROPERTY = "C17"
LEVEL = "model_checking"
ASSUMES = ["the objective is strongly convex, so the minimiser is unique; optimality is certified by a zero duality gap and by comparison with neighbours in every coordinate direction"]
RULE = "every sample over the alphabet x threshold form x setting x transform pair; for wavelet priors every configuration in the box with coefficients placed below, at and above their thresholds"
BOUNDS = {"quick": "vectors of length <= 3 over 6 real / 7 complex letters, 5 scalar thresholds and all threshold vectors over 3 letters; 12 transform pairs; wavelet priors L 2..4, B {1.5,2,3}, J_min 0..1, dirs/spin {(1,0),(2,0),(2,1)}, eta {0,1,2}; synthesis vectors of 8..5000 entries; magnitudes rescaled by 1e-300..1e300",
          "thorough": "vectors of length <= 4; wavelet priors L 2..6, B {1.3,1.5,2,3}, J_min 0..2, (dirs, spin) {(1,0),(2,0),(1,2),(2,1),(3,0)}, eta {0,0.5,1,2}; synthesis vectors of 8..5000 entries; magnitudes rescaled by 1e-300..1e300"}
REAL = [0.0, 0.25, -0.4, 1.0, -1.3, 2.5]
CPLX = [0.0, 0.25j, -0.6 + 0.8j, 1.2, -0.3 - 0.4j, 2 - 1.5j, 1e-3j]
TS = [0.0, 0.25, 0.5, 1.0, 2.0]


def pairs():
    """(name, A, semi-orthogonal?): adj = A, fwd = A^H."""
    r = np.sqrt(0.5)
    yield "identity2", np.eye(2), True
    yield "swap", np.array([[0, 1.0], [1, 0]]), True
    yield "rotation", np.array([[0.6, 0.8], [-0.8, 0.6]]), True
    yield "unitary", np.array([[r, 1j * r], [1j * r, r]]), True
    yield "dft3", np.exp(-2j * np.pi * np.outer(range(3), range(3)) / 3) / np.sqrt(3), True
    yield "row2", np.array([[0.6, 0.8]]), True
    yield "row3", np.array([[2, -1, 2]]) / 3, True
    yield "rows23", np.array([[2, -1, 2], [1 / r, 0, -1 / r]]) / np.array([[3], [2]]), True
    yield "cplx row", np.array([[0.6, 0.8j]]), True
    yield "frame32", np.array([[1, 0], [-0.5, np.sqrt(0.75)], [-0.5, -np.sqrt(0.75)]]) * np.sqrt(2 / 3), False
    yield "general", np.array([[1.0, 2.0], [0.5, -1.0]]), False
    yield "tall", np.array([[1.0, 0.5j], [0.3, 1.0], [-0.2j, 0.4]]), False


def cases(tier):
    q = tier == "quick"
    N = 3 if q else 4
    out = []
    for cplx in (False, True):
        for n in range(1, N + 1):
            for x0 in range(len(CPLX if cplx else REAL)):
                out.append({"kind": "l1", "n": n, "cplx": cplx, "x0": x0})
    for name, A, semi in pairs():
        for cplx in (False, True):
            out.append({"kind": "analysis", "pair": name, "cplx": cplx})
    for L in range(2, 5 if q else 7):
        for B in (1.5, 2, 3) if q else (1.3, 1.5, 2, 3):
            for J in range(2 if q else 3):
                if pys2let.pys2let_j_max(B, L, J) < J:
                    continue
                for d, s in [(1, 0), (2, 0), (2, 1)] + ([] if q else [(1, 2), (3, 0)]):
                    if d > L or s >= L:
                        continue
                    for eta in [None, 0, 1, 2] + ([] if q else [0.5]):
                        out.append({"kind": "wavelet", "L": L, "B": B, "J": J, "dirs": d, "spin": s, "eta": eta})
    for L in (2, 3, 8):
        out.append({"kind": "wavelet-analysis", "L": L})
    for n in (8, 33, 257, 1000, 5000):
        out.append({"kind": "sizes", "n": n})
    return out


def shrink1(x, t):
    a = abs(x)
    if a <= t:
        return 0 * x
    return cmath.rect(a - t, cmath.phase(x)) if isinstance(x, complex) else (a - t) * (1 if x > 0 else -1)


def shrink(x, t):
    t = np.broadcast_to(t, np.shape(x))
    return np.array([shrink1(complex(a), b) if np.iscomplexobj(x) else shrink1(float(a), b) for a, b in zip(x, t)])


def evaluate(label, p, x, rec):
    """prior and prox with purity and sign checks."""
    keep = x.copy()
    ro = x.copy()
    ro.flags.writeable = False
    try:
        v, y = p.prior(x), np.asarray(p.proxf(x))
        y2 = np.asarray(p.proxf(ro))
        p.prior(ro)
    except Exception as e:
        raise Violation(f"{label}: {type(e).__name__}: {e}")
    rec.step(2)
    if not np.array_equal(x, keep):
        raise Violation(f"{label}: the sample was changed from {keep!r} to {x!r}")
    if np.iscomplexobj(v) and abs(np.imag(v)) > 1e-12 or not np.real(v) >= 0:
        raise Violation(f"{label}: prior value {v}")
    if y.shape != x.shape or not np.allclose(y, y2, rtol=1e-9, atol=1e-12):
        raise Violation(f"{label}: prox {y!r}, on a read-only copy {y2!r}")
    return float(np.real(v)), y


def neighbours(y, x):
    n = len(y)
    units = (1, -1, 1j, -1j) if np.iscomplexobj(x) else (1, -1)
    for k in range(n):
        for u in units:
            for h in (1e-3, 0.05, 0.7):
                e = np.zeros(n, dtype=complex if np.iscomplexobj(x) else float)
                e[k] = u * h
                yield y + e
    yield x
    yield 0 * x


def run_case(case, rec):
    if case["kind"] == "l1":
        n, cplx = case["n"], case["cplx"]
        letters = CPLX if cplx else REAL
        fn = lambda v: v
        tvecs = [np.array(t) for t in itertools.product((0.0, 0.3, 1.1), repeat=n)] if n <= 3 else [np.array([0.0, 0.3, 1.1, 0.3])]
        for rest in itertools.product(letters, repeat=n - 1):
            x = np.array((letters[case["x0"]],) + rest, dtype=complex if cplx else float)
            for T in TS + tvecs:
                p = L1("synthesis", fn, fn, T)
                lab = f"L1(synthesis, T={T!r}) at {x!r}"
                v, y = evaluate(lab, p, x.copy(), rec)
                if abs(v - sum(abs(a) for a in x)) > 1e-10:
                    raise Violation(f"{lab}: prior {v}")
                if not np.allclose(y, shrink(x, T), rtol=1e-9, atol=1e-10):
                    raise Violation(f"{lab}: prox {y!r}, the minimiser is {shrink(x, T)!r}")
                rec.trace()
                rec.state("l1", x.tobytes(), np.asarray(T).tobytes())
            rec.outcome(np.round(y, 9).tobytes())
        # the objective itself, with the code's own prior
        for T in TS:
            p = L1("synthesis", fn, fn, T)
            y = np.asarray(p.proxf(x.copy()))
            J = lambda z: T * float(np.real(p.prior(z))) + float(np.sum(np.abs(x - z) ** 2)) / 2
            for z in neighbours(y, x):
                if J(z) < J(y) - 1e-12:
                    raise Violation(f"L1(synthesis, T={T}) at {x!r}: {z!r} has a lower objective ({J(z)}) than the prox ({J(y)})")
        xi = np.array([3, -2, 0, 1])[:n]
        if not np.allclose(np.asarray(L1("synthesis", fn, fn, 1.5).proxf(xi)), shrink(xi.astype(float), 1.5)):
            raise Violation(f"L1 prox of integers {xi!r}")
    elif case["kind"] == "analysis":
        A, semi = {n: (a, s) for n, a, s in pairs()}[case["pair"]]
        cplx = case["cplx"]
        n = A.shape[1]
        letters = CPLX[:6] if cplx else REAL
        fwd, adj = (lambda c: A.conj().T @ c), (lambda v: A @ v)
        if cplx is False and np.iscomplexobj(A):
            letters = [complex(v) for v in REAL]
        for word in itertools.product(letters, repeat=n):
            x = np.array(word)
            for T in TS:
                p = L1("analysis", fwd, adj, T)
                lab = f"L1(analysis, {case['pair']}, T={T}) at {x!r}"
                v, y = evaluate(lab, p, x.copy(), rec)
                if abs(v - float(np.sum(np.abs(A @ x)))) > 1e-9:
                    raise Violation(f"{lab}: prior {v}, the L1 norm of adj(x) is {np.sum(np.abs(A @ x))}")
                c = A @ x
                if not np.allclose(y, x + fwd(shrink(c, T) - c), rtol=1e-9, atol=1e-10):
                    raise Violation(f"{lab}: prox {y!r}, x + fwd(soft(adj x) - adj x) is {x + fwd(shrink(c, T) - c)!r}")
                if semi:
                    dual = c - shrink(c, T)
                    D = float(np.real(np.vdot(fwd(dual), x))) - float(np.sum(np.abs(fwd(dual)) ** 2)) / 2
                    J = lambda z: T * float(np.real(p.prior(z))) + float(np.sum(np.abs(x - z) ** 2)) / 2
                    if J(y) - D > 1e-9:
                        raise Violation(f"{lab}: prox {y!r} is not the minimiser, duality gap {J(y) - D}")
                    for z in neighbours(y, x):
                        if J(z) < J(y) - 1e-10:
                            raise Violation(f"{lab}: {z!r} has a lower objective than the prox")
                rec.trace()
                rec.state(case["pair"], x.tobytes(), T)
                rec.outcome(np.round(y, 9).tobytes())
    elif case["kind"] == "sizes":
        n = case["n"]
        fn = lambda v: v
        for fac in (1.0, 1e-300, 1e-200, 1e-30, 1e-14, 1e-9, 1e-5, 1e5, 1e20, 1e300 / n):
            for x in (gen(n), gen(n, 1).real, np.round(gen(n, 2).real, 1)):
                for T in (0.0, 0.3, 0.7, np.abs(gen(n, 5).real)):
                    lab = f"L1(synthesis) of {n} {x.dtype} entries in units of {fac}"
                    for setting in ("synthesis", "analysis"):  # with the identity both are soft thresholding
                        p = L1(setting, fn, fn, T * fac)
                        v, y = evaluate(lab, p, x * fac, rec)
                        if not abs(v / fac - np.sum(np.abs(x))) <= 1e-9 * n:
                            raise Violation(f"{lab}: prior {v}")
                        if not np.allclose(y / fac, shrink(x, T), rtol=1e-9, atol=1e-9):
                            k = int(np.argmax(np.abs(y / fac - shrink(x, T))))
                            raise Violation(f"{lab}, {setting}: prox of entry {k} is {y[k]}, the minimiser is {shrink(x, T)[k]}*{fac}")
                    rec.state(n, fac, x.dtype.kind, np.asarray(T).tobytes())
            rec.trace()
            rec.outcome(n, fac)
    elif case["kind"] == "wavelet":
        L, B, J, d, s, eta = (case[k] for k in ("L", "B", "J", "dirs", "spin", "eta"))
        t = SphericalWaveletTransform(L, B, J, dirs=d, spin=s)
        n = t.ncoefs
        phi, psi = pys2let.wavelet_tiling(B, L, d, J, s)
        for T in (0.7, np.full(n, 0.2) + 0.05 * np.arange(n)):
            if eta is None:
                p = S2_Wavelets_L1("synthesis", t.inverse, t.inverse_adjoint, T, L, B, J, dirs=d, spin=s)
            else:
                try:
                    p = S2_Wavelets_L1_Power_Weights("synthesis", t.inverse, t.inverse_adjoint, T, L, B, J, dirs=d, spin=s, eta=eta)
                except ValueError:
                    if np.all(np.any(np.abs(psi) > 0, axis=0)) and np.any(np.abs(phi) > 0):
                        raise
                    rec.extra["vanishing_scales"] += 1
                    return
            lab = f"{type(p).__name__}(T={'0.7' if np.isscalar(T) else 'vector'}, {case})"
            w = np.array([float(np.real(p.prior(unit(n, k)))) for k in range(n)])
            rec.step(n)
            thr = T * w
            for fac in (0.5, 1.0 - 1e-9, 1.0 + 1e-9, 1.7, 6.0):
                for sgn in (np.where(np.arange(n) % 2, 1.0, -1.0), np.exp(2.3j * np.arange(n))):
                    x = fac * thr * sgn + (0.2 * sgn if fac == 6.0 else 0)
                    v, y = evaluate(lab, p, x.copy(), rec)
                    if abs(v - np.sum(w * np.abs(x))) > 1e-9 * max(1, v):
                        raise Violation(f"{lab}: the prior is not the weighted L1 norm: {v} vs {np.sum(w * np.abs(x))}")
                    want = shrink(x, thr)
                    if not np.allclose(y, want, rtol=1e-9, atol=1e-9 * max(1, np.max(thr))):
                        k = int(np.argmax(np.abs(y - want)))
                        raise Violation(f"{lab}: prox of coefficient {k} = {x[k]} (weight {w[k]}) is {y[k]}, the minimiser of T*prior + distance is {want[k]}")
                    rec.trace()
                    rec.state(repr(sorted(case.items(), key=str)), fac, np.iscomplexobj(x), np.isscalar(T))
            rec.outcome(np.round(w, 8).tobytes())
    else:
        L = case["L"]
        t = SphericalWaveletTransform(L, 2, 0)
        n = L * (2 * L - 1)
        for T in (0.0, 0.01, 0.1, 1.0):
            for a, b in ((t.inverse, t.inverse_adjoint), (t.forward_adjoint, t.forward)):
                p = L1("analysis", a, b, T)
                for x in [gen(n), gen(n, 2)] + [unit(n, k) for k in range(0, n, 1 if L < 5 else 7)]:
                    lab = f"L1(analysis, wavelets L={L}, T={T})"
                    v, y = evaluate(lab, p, x.copy(), rec)
                    c = np.asarray(b(x))
                    want = x + a(shrink(c, T) - c)
                    if abs(v - np.sum(np.abs(c))) > 1e-8 or not np.allclose(y, want, rtol=1e-9, atol=1e-9):
                        raise Violation(f"{lab}: prior {v} or prox differ from the definition")
                    rec.trace()
                    rec.state(L, T, x.tobytes())
                    rec.outcome(np.round(y, 8).tobytes())
    rec.sample(case)
