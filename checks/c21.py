"""C21: pixel areas partition the sphere."""
import itertools
import math

import numpy as np

from mc.core import Violation
from pxmcmc.utils import calc_pixel_areas, pixel_area, polar_cap_area

PROPERTY = "C21"
LEVEL = "model_checking"
ASSUMES = ["MW sampling: ring t of L lies at colatitude pi (2t+1)/(2L-1)"]
RULE = "every bandlimit and radius in the box, every ring and pixel; every ordered triple of colatitudes and longitudes over a grid for additivity"
BOUNDS = {"quick": "L 1..40, 64, 90, 128, 200, 256, 300, 512, 700 x 5 radii; rectangles over 9 colatitudes x 7 longitudes x 4 radii", "thorough": "L 1..150, 180, 256, 300, 512, 700, 1100 x 7 radii; rectangles over 13 colatitudes x 13 longitudes x 7 radii"}


def cases(tier):
    q = tier == "quick"
    R = [1, 1.0, 0.5, 2, 6371.0] + ([] if q else [1e-3, 17.3])
    out = [{"kind": "map", "L": L, "radii": R} for L in list(range(1, 41 if q else 151)) + ([64, 90, 128, 200, 256, 300, 512, 700] if q else [180, 256, 300, 512, 700, 1100])]
    n, m = (9, 7) if q else (13, 13)
    for i in range(n):
        out.append({"kind": "rect", "t0": i, "nt": n, "np": m, "radii": R[:4] if q else R})
    out.append({"kind": "cap", "radii": R, "n": 37 if q else 181})
    return out


def near(a, b, scale=None):
    return abs(a - b) <= 1e-10 * max(abs(b), scale or 0, 1e-300)


def run_case(case, rec):
    if case["kind"] == "map":
        L = case["L"]
        for r in case["radii"]:
            a = np.asarray(calc_pixel_areas(L, r))
            tot = 4 * math.pi * r * r
            lab = f"calc_pixel_areas(L={L}, r={r})"
            if a.shape != (L, 2 * L - 1):
                raise Violation(f"{lab}: shape {a.shape}")
            if not np.all(a > 0):
                raise Violation(f"{lab}: not positive")
            upto = np.cumsum(a.sum(axis=1))
            for t in range(L):
                if not np.all(np.abs(a[t] - a[t, 0]) <= 1e-9 * a[t, 0]):
                    raise Violation(f"{lab}: areas differ within ring {t}")
                th = math.pi * (2 * t + 1) / (2 * L - 1)
                cap = 2 * math.pi * r * r * (1 - math.cos(th))
                if not abs(upto[t] - cap) <= 1e-8 * cap + 1e-12 * tot:
                    raise Violation(f"{lab}: rings 0..{t} cover {upto[t]}, their cap has area {cap}")
                ring = 2 * math.pi * r * r * (math.cos(th - (2 * math.pi / (2 * L - 1) if t else th)) - math.cos(th))
                if not abs(a[t].sum() - ring) <= 1e-7 * ring:
                    raise Violation(f"{lab}: ring {t} covers {a[t].sum()}, the band between its colatitudes {ring}")
                rec.state(L, r, t)
                rec.step()
            if not near(a.sum(), tot):
                raise Violation(f"{lab}: total {a.sum()}, the sphere has {tot}")
            rec.trace()
            rec.outcome(np.round(a / r ** 2, 9).tobytes())
        d = np.asarray(calc_pixel_areas(L))
        if not np.allclose(d, np.asarray(calc_pixel_areas(L, 1))):
            raise Violation(f"calc_pixel_areas({L}) without radius is not the unit sphere")
    elif case["kind"] == "rect":
        ths = np.linspace(0, math.pi, case["nt"])
        phs = np.linspace(0, 2 * math.pi, case["np"])
        t0 = ths[case["t0"]]
        for r in case["radii"]:
            for t1, t2 in itertools.combinations_with_replacement(ths[case["t0"] :], 2):
                for p0, p1, p2 in itertools.combinations_with_replacement(phs, 3):
                    f = lambda a, b, c, d: pixel_area(r, a, b, c, d)
                    whole = f(t0, t2, p0, p2)
                    want = r * r * (math.cos(t0) - math.cos(t2)) * (p2 - p0)
                    rec.step()
                    if abs(whole - want) > 1e-10 * r * r:
                        raise Violation(f"pixel_area(r={r}, {t0}, {t2}, {p0}, {p2}) = {whole}, expected {want}")
                    if abs(f(t0, t1, p0, p2) + f(t1, t2, p0, p2) - whole) > 1e-10 * r * r or abs(f(t0, t2, p0, p1) + f(t0, t2, p1, p2) - whole) > 1e-10 * r * r:
                        raise Violation(f"pixel_area is not additive at r={r}, colatitudes {t0},{t1},{t2}, longitudes {p0},{p1},{p2}")
                    if abs(pixel_area(3 * r, t0, t2, p0, p2) - 9 * whole) > 1e-9 * r * r:
                        raise Violation(f"pixel_area does not scale with the radius squared at {r}")
                    rec.state(r, t0, t1, t2, p0, p1, p2)
        rec.trace()
        rec.outcome(case["t0"])
    else:
        for r in case["radii"]:
            for th in np.linspace(0, math.pi, case["n"]):
                c = polar_cap_area(r, th)
                rec.step()
                if abs(c - 2 * math.pi * r * r * (1 - math.cos(th))) > 1e-10 * r * r or abs(c - pixel_area(r, 0, th, 0, 2 * math.pi)) > 1e-10 * r * r:
                    raise Violation(f"polar_cap_area({r}, {th}) = {c}")
                if abs(polar_cap_area(2 * r, th) - 4 * c) > 1e-9 * r * r:
                    raise Violation(f"polar_cap_area does not scale with the radius squared at ({r}, {th})")
                rec.state("cap", r, th)
            v = np.asarray(polar_cap_area(r, np.linspace(0, math.pi, 5)))
            if v.shape != (5,) or np.any(np.diff(v) <= 0):
                raise Violation("polar_cap_area of an array")
        rec.trace()
        rec.outcome("cap")
    rec.sample({k: v for k, v in case.items()})
