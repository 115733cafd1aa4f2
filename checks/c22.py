"""C22: Chebyshev functions satisfy their definitions at every order."""
import numpy as np
from numpy.polynomial import chebyshev as C
from fractions import Fraction

from mc.core import Violation
from pxmcmc.utils import cheb1der, chebyshev1, chebyshev2

PROPERTY = "C22"
LEVEL = "model_checking"
ASSUMES = ["a polynomial of degree n is determined by n+1 points; each order is evaluated at more exact rational points than its degree"]
RULE = "every order up to the bound, at more rational points than the degree (inside and outside [-1,1]), against the exact recurrence over fractions; scalars, arrays, complex and integer arguments; every negative order down to the bound"
BOUNDS = {"quick": "orders 0..22, 33 points, and 23..28 at two, negative orders to -20", "thorough": "orders 0..26, 49 points, and 27..31 at two, negative orders to -200"}


def cases(tier):
    q = tier == "quick"
    few = [{"order": n, "pts": 0} for n in ((28, 26, 25, 24, 23) if q else (31, 30, 29, 28, 27))]
    return few + [{"order": n, "pts": 33 if q else 49} for n in range(22 if q else 26, -1, -1)] + [{"negative": 20 if q else 200}]


def exact(n, x):
    """T_n, U_n, T_n' exactly, by the product-to-sum recurrences on fractions."""
    T, U = [Fraction(1), x], [Fraction(1), 2 * x]
    for _ in range(n):
        T.append(2 * x * T[-1] - T[-2])
        U.append(2 * x * U[-1] - U[-2])
    return T[n], U[n], (n * U[n - 1] if n else Fraction(0))


def near(a, b, n, x):
    size = max(1.0, float(abs(b)), (abs(x) + abs(complex(x) ** 2 - 1) ** 0.5 + 1e-9) ** n)
    return abs(a - b) <= 1e-9 * size * max(1, n)


def run_case(case, rec):
    if "negative" in case:
        for n in range(1, case["negative"] + 1):
            for f in (chebyshev1, chebyshev2, cheb1der):
                for x in (0.3, 1.05, np.array([0.1, 2.0])):
                    rec.step()
                    try:
                        f(x, -n)
                    except Exception:
                        rec.state(f.__name__, -n)
                        continue
                    raise Violation(f"{f.__name__} accepts order {-n}")
        rec.trace()
        rec.outcome("negative")
        return
    n, k = case["order"], case["pts"]
    pts = [Fraction(i - k // 2, k // 4) for i in range(k) if k] + [Fraction(1), Fraction(-1), Fraction(0), Fraction(21, 20), Fraction(401, 400)]
    fs = (("chebyshev1", chebyshev1, 0), ("chebyshev2", chebyshev2, 1), ("cheb1der", cheb1der, 2))
    if not k:  # the recursions take exponential time: orders this high at two points only
        for x in (Fraction(21, 20), Fraction(-3, 10)):
            for (name, f, i), want in zip(fs, exact(n, x)):
                got = f(float(x), n)
                rec.step()
                if np.shape(got) != () or not near(got, float(want), n, float(x)):
                    raise Violation(f"{name}({float(x)}, {n}) = {got}, expected {float(want)}")
            rec.state(n, float(x))
        rec.trace()
        rec.outcome(n)
        return
    for x in pts:
        ex = [float(v) for v in exact(n, x)]
        for name, f, i in fs:
            got = f(float(x), n)
            rec.step()
            if np.shape(got) != () or not near(got, ex[i], n, float(x)):
                raise Violation(f"{name}({float(x)}, {n}) = {got}, expected {ex[i]}")
        rec.state(n, float(x))
    xs = np.array([float(x) for x in pts])
    for name, f, i in fs:
        want = np.array([float(exact(n, x)[i]) for x in pts])
        keep = xs.copy()
        got = np.broadcast_to(np.asarray(f(xs, n)), xs.shape)
        if not np.array_equal(xs, keep):
            raise Violation(f"{name} of order {n} changed its argument")
        for g, w, x in zip(got, want, xs):
            if not near(g, w, n, x):
                raise Violation(f"{name} of an array at {x}, order {n}: {g}, expected {w}")
        for x in (2, -3, 0, 1):
            if not near(f(x, n), float(exact(n, Fraction(x))[i]), n, x):
                raise Violation(f"{name}({x}, {n}) for an integer argument = {f(x, n)}")
        ints = np.array([2, -3, 0, 1, 7, -40])
        for g, x in zip(np.broadcast_to(np.asarray(f(ints, n)), ints.shape), ints):
            if not near(g, float(exact(n, Fraction(int(x)))[i]), n, float(x)):
                raise Violation(f"{name} of an integer array at {x}, order {n} = {g}")
        if not np.array_equal(ints, [2, -3, 0, 1, 7, -40]):
            raise Violation(f"{name} of order {n} changed its argument")
        z = 0.3 + 0.4j
        ref = [C.chebval(z, [0] * n + [1]), None, C.chebval(z, C.chebder([0] * n + [1])) if n else 0]
        if ref[i] is not None and not near(f(z, n), ref[i], n, z):
            raise Violation(f"{name}({z}, {n}) = {f(z, n)}, expected {ref[i]}")
        rec.trace()
        rec.outcome(name, n)
    rec.sample({"order": n, "points": [str(p) for p in pts[:4]]})
