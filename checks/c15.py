"""C15: wavelet transforms reconstruct exactly and have exact adjoints."""
import numpy as np
import pys2let
import pyssht

from mc.core import Violation
from mc.linear import adjoint_pair, gen, nondefault, unit
from pxmcmc.transforms import IdentityTransform, SphericalWaveletTransform

PROPERTY = "C15"
LEVEL = "model_checking"
ASSUMES = ["transforms are linear up to rounding (checked on i*e_k and generic vectors)", "spin signals have no harmonic coefficients with l < spin"]
RULE = ("every transform configuration in the box: forward, inverse and both adjoints as matrices on the complete complex basis, compared entry by entry; every harmonic (l,m) "
        "reconstructed; each map also on real, integer, strided, reversed and read-only inputs")
BOUNDS = {"quick": "L 2..4, B {1.3,1.5,2,3}, J_min 0..2, (dirs,spin) {(1,0),(2,0),(1,2),(2,1)}, pixel and harmonic; L 3..5 for (dirs,spin) {(3,0),(3,1),(2,2),(3,2)}; L=5, 6 for B {2,3}, (1,0); four configurations with L 8..10; L 16, 24, 32, 40 on a selection of harmonics, basis vectors and generic vectors",
          "thorough": "L 2..7, B {1.3,1.5,2,2.5,3,4}, J_min 0..3, (dirs,spin) {(1,0),(2,0),(3,0),(1,2),(2,1),(3,2),(2,2)}, pixel and harmonic; L=8 for (1,0); six configurations with L 10..16; L 16, 24, 32, 40, 64 on a selection of harmonics, basis vectors and generic vectors"}
CHUNKS_PER_PROC = 40


def cases(tier):
    q = tier == "quick"
    out = [{"op": "identity", "n": n} for n in range(1, 8)]
    seen = set()

    def add(L, B, J, d, s, h):
        if pys2let.pys2let_j_max(B, L, J) < J or d > L or s >= L or (L, B, J, d, s, h) in seen:
            return
        seen.add((L, B, J, d, s, h))
        out.append({"L": L, "B": B, "J": J, "dirs": d, "spin": s, "harmonic": h})

    for L in range(2, 5 if q else 8):
        for B in (1.3, 1.5, 2, 3) if q else (1.3, 1.5, 2, 2.5, 3, 4):
            for J in range(3 if q else 4):
                for d, s in [(1, 0), (2, 0), (1, 2), (2, 1)] + ([] if q else [(3, 0), (3, 2), (2, 2)]):
                    for h in (False, True):
                        add(L, B, J, d, s, h)
    for L in (3, 4, 5):
        for B, J in ((2, 0), (2, 1), (1.5, 1)):
            for d, s in ((3, 0), (3, 1), (2, 2), (3, 2)):
                for h in (False, True):
                    add(L, B, J, d, s, h)
    for L, B, J in ((8, 2, 0), (8, 2, 2), (10, 2, 1), (9, 1.5, 2)) if q else ((10, 2, 0), (10, 2, 2), (12, 2, 2), (12, 3, 1), (10, 1.5, 2), (16, 2, 2)):
        for h in (False, True):
            add(L, B, J, 1, 0, h)
    for L in (16, 24, 32, 40) if q else (16, 24, 32, 40, 64):
        for B, J, d, s in ((2, 2, 1, 0), (3, 1, 1, 0), (1.5, 3, 1, 0), (2, 0, 1, 2), (2, 1, 2, 0)):
            for h in (False, True):
                out.insert(0, {"op": "some", "L": L, "B": B, "J": J, "dirs": d, "spin": s, "harmonic": h})
    for L in (5, 6) if q else (8,):
        for B in (2, 3):
            for J in (0, 1, 2):
                for h in (False, True):
                    add(L, B, J, 1, 0, h)
    return out


def variants(v):
    """The same values in other memory layouts and types."""
    n = len(v)
    big = np.full(2 * n, 9.9, dtype=v.dtype)
    big[::2] = v
    yield "strided", big[::2]
    yield "reversed", np.array(v[::-1])[::-1]
    ro = v.copy()
    ro.flags.writeable = False
    yield "read-only", ro
    yield "2D column", np.asfortranarray(np.stack([v, v * 0], axis=1))[:, 0]
    yield "2D C column", np.ascontiguousarray(np.stack([v, v * 0], axis=1))[:, 0]


def run_case(case, rec):
    if case.get("op") == "identity":
        n = case["n"]
        t = IdentityTransform()
        for a, b in ((t.forward, t.forward_adjoint), (t.inverse, t.inverse_adjoint), (t.forward, t.inverse)):
            A = adjoint_pair(f"IdentityTransform n={n}", a, b, n, n, rec)
            if not np.array_equal(A, np.eye(n)):
                raise Violation(f"IdentityTransform is not the identity: {A!r}")
        rec.state("identity", n)
        return
    L, B, J, d, s, h = (case[k] for k in ("L", "B", "J", "dirs", "spin", "harmonic"))
    t = SphericalWaveletTransform(L, B, J, **nondefault(dirs=d, spin=s, harmonic=h))
    lab = f"SphericalWaveletTransform(L={L}, B={B}, J_min={J}, dirs={d}, spin={s}, harmonic={h})"
    n = L * L if h else L * (2 * L - 1)
    if t.ncoefs != t.nscal + t.nwav:
        raise Violation(f"{lab}: ncoefs={t.ncoefs}, nscal={t.nscal}, nwav={t.nwav}")
    nc = t.ncoefs
    if case.get("op") == "some":
        return some(case, t, lab, n, nc, rec)
    skip = s * s if h else 0  # harmonic modes with l < spin do not exist

    def dom(f):
        if not skip:
            return f
        return lambda y: np.asarray(f(np.concatenate([np.zeros(skip), y])))

    def cod(f):
        return f if not skip else (lambda y: np.asarray(f(y))[skip:])

    adjoint_pair(lab + " forward/forward_adjoint", dom(t.forward), cod(t.forward_adjoint), n - skip, nc, rec)
    if skip == 0:
        adjoint_pair(lab + " inverse/inverse_adjoint", t.inverse, t.inverse_adjoint, nc, n, rec)
    else:
        adjoint_pair(lab + " inverse/inverse_adjoint", cod(t.inverse), dom(t.inverse_adjoint), nc, n - skip, rec)
    # reconstruction of every harmonic
    for l in range(s, L):
        for m in range(-l, l + 1):
            e = unit(L * L, l * l + l + m)
            x = e if h else np.asarray(pyssht.inverse(e, L, Spin=s)).ravel()
            for u in (1, 1j):
                c = np.asarray(t.forward(u * x))
                y = np.asarray(t.inverse(c))
                rec.step()
                if c.shape != (nc,) or y.shape != (n,):
                    raise Violation(f"{lab}: forward gives {c.shape}, inverse {y.shape}; expected ({nc},) and ({n},)")
                if not np.allclose(y, u * x, rtol=1e-9, atol=1e-8):
                    raise Violation(f"{lab}: (l,m)=({l},{m}) with coefficient {u} is not reconstructed, error {np.max(np.abs(y - u * x))}")
            rec.state(lab, l, m)
    # representation of the input does not matter
    for name, f, k in (("forward", t.forward, n), ("inverse", t.inverse, nc), ("inverse_adjoint", t.inverse_adjoint, n), ("forward_adjoint", t.forward_adjoint, nc)):
        ints = (np.arange(k) * 7) % 11 - 5
        if skip and k == n:
            ints[:skip] = 0
        z = ints + 1j * np.roll(ints, 1)
        if skip and k == n:
            z[:skip] = 0
        for what, v in (("integers", ints), ("int32", ints.astype(np.int32)), ("real", ints * 0.37), ("float32", (ints * 0.5).astype(np.float32)), ("booleans", ints > 0)):
            ref = np.array(f(v.astype(complex)))
            pairs = [(what, v)] + [(what + " " + a, b) for a, b in variants(v)]
            for nm, inp in pairs:
                same_result(lab, name, nm, f, inp, ref, rec)
        ref = np.array(f(z.copy()))
        for nm, inp in variants(z):
            same_result(lab, name, "complex " + nm, f, inp, ref, rec)
    rec.sample(case)


def some(case, t, lab, n, nc, rec):
    """Large transforms: adjoint identities and reconstruction on a selection of inputs."""
    L, s, h = case["L"], case["spin"], case["harmonic"]
    skip = s * s if h else 0

    def pick(k, lo=0):
        vs = [unit(k, int(i)) for i in np.unique(np.linspace(lo, k - 1, 9).astype(int))]
        for j in range(2):
            g = gen(k, j)
            g[:lo] = 0
            vs.append(g)
        return vs

    sig, coef = pick(n, skip), pick(nc)
    for nm, f, fa in (("forward", t.forward, t.forward_adjoint), ("inverse", t.inverse, t.inverse_adjoint)):
        xs, ys = (sig, coef) if nm == "forward" else (coef, sig)
        fx = [np.array(f(x.copy())) for x in xs]
        ay = [np.array(fa(y.copy())) for y in ys]
        rec.step(len(fx) + len(ay))
        for x, fv in zip(xs, fx):
            for y, av in zip(ys, ay):
                if fv.shape != y.shape or av.shape != x.shape:
                    raise Violation(f"{lab}: {nm} or its adjoint gives {fv.shape}, {av.shape}; expected {y.shape}, {x.shape}")
                a, b = np.vdot(y, fv), np.vdot(av, x)
                if not abs(a - b) <= 1e-9 * max(1.0, np.linalg.norm(fv) * np.linalg.norm(y)):
                    raise Violation(f"{lab}: <{nm} x, y> = {a} but <x, {nm}_adjoint y> = {b}")
        comb = 2.0 * xs[1] - 0.5j * xs[-1]
        if not np.allclose(np.asarray(f(comb)), 2.0 * fx[1] - 0.5j * fx[-1], rtol=1e-9, atol=1e-9 * max(1.0, np.max(np.abs(fx[-1])))):
            raise Violation(f"{lab}: {nm} is not linear")
    ls = sorted({l for l in (s, s + 1, 2, 3, L // 3, L // 2, L - 2, L - 1) if l >= s})
    for l in ls:
        for m in sorted({-l, -1, 0, 1, l // 2, l}):
            if abs(m) > l:
                continue
            e = unit(L * L, l * l + l + m)
            x = e if h else np.asarray(pyssht.inverse(e, L, Spin=s)).ravel()
            y = np.asarray(t.inverse(t.forward((1 + 0.5j) * x)))
            rec.step()
            if y.shape != x.shape or not np.allclose(y, (1 + 0.5j) * x, rtol=1e-9, atol=1e-8):
                raise Violation(f"{lab}: (l,m)=({l},{m}) is not reconstructed")
            rec.state(lab, l, m)
    e = gen(L * L)
    e[: s * s] = 0
    x = e if h else np.asarray(pyssht.inverse(e, L, Spin=s)).ravel()
    if not np.allclose(np.asarray(t.inverse(t.forward(x.copy()))), x, rtol=1e-9, atol=1e-8 * max(1.0, np.max(np.abs(x)))):
        raise Violation(f"{lab}: a generic band-limited signal is not reconstructed")
    rec.trace()
    rec.outcome(lab)
    rec.sample(case)


def same_result(lab, name, nm, f, inp, ref, rec):
    keep = np.array(inp)
    try:
        got = np.asarray(f(inp))
    except Exception as e:
        raise Violation(f"{lab}.{name} fails on {nm} input: {type(e).__name__}: {e}")
    rec.step()
    if got.shape != ref.shape or not np.allclose(got, ref, rtol=1e-9, atol=1e-9 * max(1, np.max(np.abs(ref)))):
        raise Violation(f"{lab}.{name} on {nm} input differs from its complex copy by {np.max(np.abs(got - ref)) if got.shape == ref.shape else got.shape}")
    if not np.array_equal(np.asarray(inp), keep):
        raise Violation(f"{lab}.{name} modified its {nm} input")
