"""C19: soft and hard thresholding act entrywise as documented."""
import itertools
import math

import numpy as np

from checks.c17 import shrink
from mc.core import Violation
from pxmcmc.utils import hard, soft

PROPERTY = "C19"
LEVEL = "model_checking"
ASSUMES = ["entries outside the alphabet behave like entries in it with the same order relation to their threshold"]
RULE = "every vector over the alphabet x every threshold (scalar and per entry, including equality with a modulus) x input type; every fraction k/n and midway for hard thresholding of every ordering of distinct moduli"
BOUNDS = {"quick": "soft: vectors of length 1..3 over 7 real, 8 complex, 5 integer letters, 6 scalar and all per-entry thresholds over 3 letters; hard: all signed permutations of 1..5 distinct moduli, all fractions; vectors of 8..5000 entries; all magnitudes rescaled by 1e-300..1e300 (9 factors)",
          "thorough": "soft: length 1..4; hard: all permutations of 1..7 distinct moduli with 4 sign/phase patterns; vectors of 8..70000 entries; all magnitudes rescaled by 1e-300..1e300 (9 factors)"}
REAL = [0.0, 0.1, -0.1, 0.5, -0.5, 2.0, -3.0]
CPLX = [0j, 0.3 + 0.4j, -0.5j, 1 + 0j, -0.06 + 0.08j, 3 - 4j, -2 + 0j, 1e-8j]
INT = [0, 1, -1, 3, -7]
TS = [0.0, 0.1, 0.5, 1.0, 2.5, 100.0]
SCALES = [1e-300, 1e-200, 1e-30, 1e-14, 1e-9, 1e-5, 1e5, 1e20, 1e300]


def cases(tier):
    q = tier == "quick"
    out = []
    for typ in ("real", "complex", "int"):
        for n in range(1, 4 if q else 5):
            for first in range(len({"real": REAL, "complex": CPLX, "int": INT}[typ])):
                out.append({"kind": "soft", "typ": typ, "n": n, "first": first})
    for n in range(1, 6 if q else 8):
        for f in range(n):
            out.append({"kind": "hard", "n": n, "first": f})
    out += [{"kind": "long", "n": n} for n in ([8, 33, 100, 257, 1000, 5000] if q else [8, 33, 100, 257, 1000, 5000, 70000])]
    out.append({"kind": "shapes"})
    for typ in ("real", "complex"):
        for fac in SCALES:
            out.append({"kind": "scaled", "typ": typ, "factor": fac})
    return out


def run_case(case, rec):
    if case["kind"] == "soft":
        typ, n = case["typ"], case["n"]
        letters = {"real": REAL, "complex": CPLX, "int": INT}[typ]
        dt = {"real": float, "complex": complex, "int": int}[typ]
        vec = [np.array(t) for t in itertools.product((0.0, 0.5, 1.0), repeat=n)]
        for rest in itertools.product(letters, repeat=n - 1):
            x = np.array((letters[case["first"]],) + rest, dtype=dt)
            for T in TS + vec:
                one(x, T, rec)
    elif case["kind"] == "scaled":
        # thresholding commutes with a change of units
        letters, fac = (REAL, CPLX)[case["typ"] == "complex"], case["factor"]
        for word in itertools.product(letters, repeat=2):
            x = np.array(word, dtype=complex if case["typ"] == "complex" else float)
            for T in TS + [np.array([0.5, 1.0]), np.array([0.0, 0.1])]:
                keep = x * fac
                got = np.asarray(soft(keep.copy(), T * fac)) / fac
                want = shrink(x, T)
                rec.step()
                if got.shape != x.shape or not np.allclose(got, want, rtol=1e-9, atol=1e-9):
                    raise Violation(f"soft({x!r}*{fac}, {T!r}*{fac}) = {got!r}*{fac}, expected {want!r}*{fac}")
                rec.state("scaled", fac, x.tobytes(), np.asarray(T).tobytes())
            for T in (0.0, 0.5, 1.0):
                if abs(abs(x[0]) - abs(x[1])) < 1e-12:
                    continue
                got = np.asarray(hard((x * fac).copy(), T)) / fac
                k = int(2 * T)
                order = np.argsort(-np.abs(x))
                want = np.where(np.isin(np.arange(2), order[:k]), x, 0)
                if not np.allclose(got, want, rtol=1e-9, atol=1e-9):
                    raise Violation(f"hard({x!r}*{fac}, {T}) = {got!r}*{fac}, expected {want!r}*{fac}")
            rec.trace()
            rec.outcome("scaled", fac, x.tobytes())
    elif case["kind"] == "hard":
        n = case["n"]
        mods = [0.3, 1.0, 2.0, 0.7, 5.0, 0.01, 3.5][:n]
        rest = mods[: case["first"]] + mods[case["first"] + 1 :]
        for perm in itertools.permutations(rest):
            m = np.array((mods[case["first"]],) + perm)
            for name, x in (("positive", m), ("negative", -m), ("mixed", m * np.where(np.arange(n) % 2, -1, 1)), ("complex", m * np.exp(1.7j * np.arange(n) + 0.3j)),
                            ("integer", np.round(m * 100).astype(int))):
                fr = [(k + 0.5) / n for k in range(n)] + [0.0, 1.0] + [k / n for k in range(n + 1)]
                for T in fr:
                    keepn = math.floor(T * n + 1e-12) if abs(T * n - round(T * n)) > 1e-9 else None
                    ks = [keepn] if keepn is not None else sorted({int(T * n), math.floor(T * n + 1e-12)})
                    x0 = x.copy()
                    got = np.asarray(hard(x0, T))
                    rec.step()
                    if not np.array_equal(x0, x):
                        raise Violation(f"hard(T={T}) changed its input {x!r} to {x0!r}")
                    ok = False
                    for k in ks:
                        keep = set(np.argsort(-np.abs(x), kind="stable")[:k].tolist())
                        want = np.array([v if i in keep else 0 * v for i, v in enumerate(x)])
                        ok = ok or (got.shape == x.shape and np.allclose(got, want, rtol=1e-9, atol=1e-12))
                    if not ok:
                        raise Violation(f"hard({x!r}, T={T}) = {got!r}, expected the {ks[-1]} largest entries")
                    rec.trace()
                    rec.state(name, x.tobytes(), T)
                    rec.outcome(np.round(got, 9).tobytes())
    elif case["kind"] == "long":
        n = case["n"]
        i = np.arange(n)
        m = ((i * 7919) % n + 1) * 0.01  # distinct unless 7919 divides n
        for x in (m, -m, m * np.where(i % 3 == 1, -1, 1), m * np.exp(1.7j * i + 0.3j), np.round(m * 100).astype(int)):
            for T in TS + [m.max() / 2, 0.5 * m[::-1], np.where(i % 2, 0.0, 0.3)]:
                one(x, T, rec)
            order = np.argsort(-np.abs(x), kind="stable")
            for T in (0.0, 0.01, 0.05, 0.1, 0.1234, 0.33, 0.5, 0.75, 0.9, 0.999, 1.0):
                x0 = x.copy()
                got = np.asarray(hard(x0, T))
                rec.step()
                want = [np.where(np.isin(i, order[:k]), x, 0) for k in {int(T * n), math.floor(T * n + 1e-9)}]
                if not np.array_equal(x0, x) or got.shape != x.shape or not any(np.allclose(got, w, rtol=1e-9, atol=1e-12) for w in want):
                    raise Violation(f"hard(T={T}) of {n} {x.dtype} values: {np.count_nonzero(got)} kept, expected the {int(T * n)} largest")
                rec.trace()
    else:
        # more than one dimension, lists, default threshold, read-only
        for shp in ((2, 3), (1, 4), (3, 1), (2, 2, 2)):
            x = (np.arange(np.prod(shp)) * 0.37 - 1).reshape(shp)
            for z in (x, x + 1j * x[::-1]):
                got = np.asarray(soft(z.copy(), 0.4))
                want = shrink(z.ravel(), 0.4).reshape(shp)
                if got.shape != shp or not np.allclose(got, want, rtol=1e-9, atol=1e-12):
                    raise Violation(f"soft of an array of shape {shp}: {got!r}")
                Tm = np.abs(x) * 0.5 + 0.1
                got = np.asarray(soft(z.copy(), Tm))
                if not np.allclose(got, shrink(z.ravel(), Tm.ravel()).reshape(shp), rtol=1e-9, atol=1e-12):
                    raise Violation(f"soft with per-entry thresholds of shape {shp}: {got!r}")
                rec.trace()
                rec.step(2)
                rec.state(shp, np.iscomplexobj(z))
        x = np.array([0.05, -0.3, 0.1, 1.0])
        if not np.allclose(soft(x), shrink(x, 0.1)):
            raise Violation(f"soft with the default threshold: {soft(x)!r}")
        if not np.allclose(soft(list(x), 0.2), shrink(x, 0.2)):
            raise Violation(f"soft of a list: {soft(list(x), 0.2)!r}")
        big = np.zeros(8)
        big[::2] = x
        for nm, v in (("strided", big[::2]), ("reversed", x[::-1].copy()[::-1])):
            if not np.allclose(soft(v, 0.2), shrink(x, 0.2)) or not np.allclose(hard(v, 0.5), [0, -0.3, 0, 1.0]):
                raise Violation(f"thresholding a {nm} view: {soft(v, 0.2)!r}, {hard(v, 0.5)!r}")
    rec.sample(case)


def one(x, T, rec):
    keep, kT = x.copy(), np.copy(T)
    got = np.asarray(soft(x, T))
    rec.step()
    want = shrink(x.astype(float) if x.dtype.kind == "i" else x, T)
    if got.shape != x.shape or not np.allclose(got, want, rtol=1e-9, atol=1e-12):
        raise Violation(f"soft({x!r}, {T!r}) = {got!r}, expected {want!r}")
    if np.any((np.abs(x) <= T) & (got != 0)):
        raise Violation(f"soft({x!r}, {T!r}) = {got!r}: entries not exceeding their threshold must be exactly zero")
    if not np.array_equal(x, keep) or not np.array_equal(kT, T):
        raise Violation(f"soft changed its input {keep!r} to {x!r}, or its threshold")
    rec.trace()
    rec.state(x.dtype.kind, keep.tobytes(), np.asarray(T).tobytes())
    rec.outcome(np.round(got, 9).tobytes())
