"""C26: the survey mask covers both planes and grows with its width."""
import math

import numpy as np
import pyssht

from mc.core import Violation
from pxmcmc.utils import build_mask

PROPERTY = "C26"
LEVEL = "model_checking"
ASSUMES = ["the Galactic pole is at (RA, dec) = (192.85948, 27.12825) degrees (J2000 / ICRS, differing by under 1e-4 degrees); pixels within 1e-3 degrees of the limit are not judged"]
RULE = "every bandlimit and width in the box, every pixel, against an independent spherical-geometry model of both planes; every pair of consecutive widths for monotonicity"
BOUNDS = {"quick": "L 1..26, 42, 50, 100, 256, widths 0, 0.5, 1, 5, 7.25, 10, 15, 18, 20, 30, 45, 54, 60, 70, 80, 90 and default", "thorough": "L 1..64, widths 0..91 in steps of 0.5; L 80, 100, 128, 200, 256, 300, 4 widths"}
RA, DEC = math.radians(192.85948), math.radians(27.12825)


def cases(tier):
    q = tier == "quick"
    return [{"L": L, "sizes": [0, 0.5, 1, 5, 7.25, 10, 15, 18, 20, 30, 45, 54, 60, 70, 80, 90] if q else [k / 2 for k in range(0, 183)]} for L in (list(range(1, 27)) + [42, 50] if q else range(1, 65))] + [{"L": L, "sizes": [5, 20, 33.3]} for L in ((100, 256) if q else (80, 100, 128, 200, 256, 300))]


def model(L):
    """Distance in degrees of every pixel from the equator and from the Galactic plane."""
    eq, gal = np.zeros((L, 2 * L - 1)), np.zeros((L, 2 * L - 1))
    for i in range(L):
        th = math.pi * (2 * i + 1) / (2 * L - 1)
        for j in range(2 * L - 1):
            ph = 2 * math.pi * j / (2 * L - 1)
            eq[i, j] = abs(90 - math.degrees(th))
            lat, lon = th - math.pi / 2, ph - math.pi
            sb = math.sin(lat) * math.sin(DEC) + math.cos(lat) * math.cos(DEC) * math.cos(lon - RA)
            gal[i, j] = abs(math.degrees(math.asin(max(-1.0, min(1.0, sb)))))
    return eq, gal


def on_edge(L, size):
    """Rings exactly as far from the equator as the mask is wide, where no way of computing the distance rounds to less."""
    t = np.asarray(pyssht.sample_positions(L)[0])
    ways = [np.abs(90 - np.degrees(t)), np.degrees(np.abs(np.pi / 2 - t)), np.abs(90 - t * 180 / np.pi), np.abs(90 - 180 * (2 * np.arange(L) + 1) / (2 * L - 1))]
    return (ways[0] == size) & np.all([w >= size for w in ways], axis=0) & (np.abs(np.pi / 2 - t) >= np.radians(size))


def run_case(case, rec):
    L = case["L"]
    eq, gal = model(L)
    prev = None
    for size in case["sizes"]:
        m = np.asarray(build_mask(L, size))
        rec.step()
        if m.shape != (L, 2 * L - 1) or not np.all((m == 0) | (m == 1)):
            raise Violation(f"build_mask({L}, {size}): shape {m.shape}, values {np.unique(m)}")
        want = np.where((eq < size) | (gal < size), 0, 1)
        sure = (np.abs(eq - size) > 1e-9) & (np.abs(gal - size) > 1e-3) | (eq < size - 1e-9) | (gal < size - 1e-3)
        sure |= on_edge(L, size)[:, None] & (gal > size + 1e-3)
        want[on_edge(L, size)[:, None] & (gal > size + 1e-3)] = 1
        bad = np.argwhere(sure & (m != want))
        if len(bad):
            i, j = bad[0]
            raise Violation(f"build_mask({L}, {size}): pixel ({i},{j}) is {m[i, j]}; it lies {eq[i, j]:.4f} degrees from the equator and {gal[i, j]:.4f} from the Galactic plane")
        rec.extra["pixels_not_judged"] += int(np.sum(~sure))
        if prev is not None and np.any((prev == 0) & (m == 1)):
            raise Violation(f"build_mask({L}): width {size} uncovers pixels masked at a smaller width")
        prev = m
        rec.trace()
        rec.state(L, size)
        rec.outcome(m.tobytes())
    if not np.array_equal(build_mask(L), build_mask(L, 20)):
        raise Violation(f"build_mask({L}): the default width is not 20 degrees")
    rec.sample({"L": L, "masked at the largest width": int(np.sum(prev == 0))})
