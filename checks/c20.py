"""C20: map quadrature is exact for band-limited signals."""
import math

import numpy as np
import pyssht
from scipy.special import eval_legendre

from mc.core import Violation
from mc.linear import gen, unit
from pxmcmc.utils import mw_map_weights, s2_integrate

PROPERTY = "C20"
LEVEL = "model_checking"
ASSUMES = ["pyssht synthesises harmonics correctly at its MW sample positions (third-party)", "integration is linear, so the harmonics form a complete set of inputs"]
RULE = "every bandlimit in the box and every harmonic (l,m) below it, with coefficients 1 and i, and real combinations; integral against sqrt(4 pi) f_00"
BOUNDS = {"quick": "L 1..24, all (l,m); L 25..40, 48, 64, 96, 128, 200, 300, all l with m 0 and the extreme m", "thorough": "L 1..64, all (l,m); L 65..128, 150, 200, 256, 300, 400, all l with m 0 and the extreme m"}


def cases(tier):
    q = tier == "quick"
    some = list(range(25, 41)) + [48, 64, 96, 128, 200, 300] if q else list(range(65, 129)) + [150, 200, 256, 300, 400]
    # weights that depend on latitude only (checked) integrate every harmonic with 0 < |m| < L to zero
    return [{"L": L, "zonal": True} for L in reversed(some)] + [{"L": L} for L in range(1, 25 if q else 65)]


def run_case(case, rec):
    L = case["L"]
    w = np.asarray(mw_map_weights(L))
    if w.shape != (L * (2 * L - 1),) or np.iscomplexobj(w) or not np.all(np.isfinite(w)):
        raise Violation(f"mw_map_weights({L}): shape {w.shape}, dtype {w.dtype}")
    ring = w.reshape(L, 2 * L - 1)
    if not np.allclose(ring, ring[:, :1], rtol=1e-9, atol=1e-14):
        raise Violation(f"mw_map_weights({L}) depends on longitude")
    if abs(w.sum() - 4 * math.pi) > 1e-9:
        raise Violation(f"mw_map_weights({L}) sums to {w.sum()}, not 4 pi")
    for l in range(L):
        for m in range(-l, l + 1) if not case.get("zonal") else sorted({0, -l, l} if l in (1, L - 1) else {0}):
            if m == 0 and case.get("zonal"):
                f = np.repeat(math.sqrt((2 * l + 1) / (4 * math.pi)) * eval_legendre(l, np.cos(math.pi * (2 * np.arange(L) + 1) / (2 * L - 1))), 2 * L - 1).astype(complex)
            else:
                f = np.asarray(pyssht.inverse(unit(L * L, l * l + l + m), L)).ravel()
            want = math.sqrt(4 * math.pi) if l == 0 else 0.0
            for u in (1, 1j):
                a = s2_integrate(u * f, L)
                rec.step()
                if not abs(a - u * want) < 1e-9:
                    raise Violation(f"s2_integrate at L={L} of harmonic ({l},{m}) times {u}: {a}, expected {u * want}")
                if not abs(np.sum(w * u * f) - u * want) < 1e-9:
                    raise Violation(f"mw_map_weights({L}) do not integrate harmonic ({l},{m})")
            for r, want_r in ((f.real.copy(), want), (f.imag.copy(), 0.0)):
                a = s2_integrate(r, L)
                if not abs(a - want_r) < 1e-9 or np.iscomplexobj(a):
                    raise Violation(f"s2_integrate at L={L} of the real signal from ({l},{m}): {a}, expected {want_r}")
            rec.state(L, l, m)
    c = gen(L * L)
    f = np.asarray(pyssht.inverse(c, L)).ravel()
    keep = f.copy()
    if not abs(s2_integrate(f, L) - math.sqrt(4 * math.pi) * c[0]) < 1e-8:
        raise Violation(f"s2_integrate at L={L} of a generic band-limited signal")
    for scale in (1e-300, 1e-18, 1e-9, 1e9, 1e300):  # in any unit, and with parts of very different size
        for z in (scale, scale * 1j, 1 + scale * 1j, scale + 1j):
            a = s2_integrate(z * f / math.sqrt(L), L)
            want = z * math.sqrt(4 * math.pi) * c[0] / math.sqrt(L)
            if not abs(a - want) <= 1e-8 * abs(z):
                raise Violation(f"s2_integrate at L={L} of a generic signal times {z}: {a}, expected {want}")
        r = np.ones(L * (2 * L - 1)) * scale
        for z in (1, 1j, scale * 1j if abs(scale) < 1e9 else 1j):
            a = s2_integrate(r * z, L)
            if not abs(a - 4 * math.pi * scale * z) <= 1e-9 * abs(scale * z) or not abs((a * 1j if z != 1 else a).imag if np.iscomplexobj(a) else 0) <= 1e-9 * abs(scale * z):
                raise Violation(f"s2_integrate at L={L} of {scale * z}: {a}")
        a = s2_integrate(np.ones(L * (2 * L - 1)) + 1e-12j, L)
        if not abs(a.imag - 4e-12 * math.pi) < 2e-13:
            raise Violation(f"s2_integrate at L={L} of 1 + 1e-12i: {a}")
    if not abs(s2_integrate(np.ones(L * (2 * L - 1)), L) - 4 * math.pi) < 1e-9:
        raise Violation(f"s2_integrate at L={L} of 1")
    if not np.array_equal(f, keep):
        raise Violation("s2_integrate changed its input")
    rec.trace()
    rec.outcome(np.round(w, 9).tobytes())
    rec.sample({"L": L, "weights per ring": [float(v) for v in ring[:3, 0]]})
