"""Linear maps determined completely on a finite set of inputs."""
import itertools

import numpy as np

from mc.core import Violation


def unit(n, k, u=1.0, dtype=complex):
    e = np.zeros(n, dtype=dtype)
    e[k] = u
    return e


def gen(n, k=0):
    i = np.arange(n)
    return np.cos(0.3 + 1.3 * i * (k + 1)) + 1j * np.sin(1.1 + 0.7 * i * (k + 2))


def matrix(label, f, n_in, n_out, rec, tol=1e-9, pairs=True):
    """Matrix of f from the images of the basis; checks complex linearity on i*e_k, on pair sums and on a generic vector."""
    A = np.zeros((n_out, n_in), dtype=complex)
    for k in range(n_in):
        y = np.asarray(f(unit(n_in, k)))
        rec.step()
        if y.shape != (n_out,):
            raise Violation(f"{label}: output of shape {y.shape}, expected ({n_out},)")
        A[:, k] = y
    scale = max(1.0, float(np.max(np.abs(A), initial=0)))

    def expect(x, what, unit_of=1.0):
        y = np.asarray(f(x.copy()))
        rec.step()
        w = A @ x
        if y.shape != (n_out,) or not np.all(np.abs(y - w) <= tol * scale * max(unit_of, float(np.sum(np.abs(x))))):
            raise Violation(f"{label}: not linear, {what}: got {y!r}, the basis images give {w!r}")

    for k in range(n_in):
        expect(unit(n_in, k, 1j), f"at i*e{k}")
    if pairs and n_in <= 8:
        for j, k in itertools.combinations(range(n_in), 2):
            expect(unit(n_in, j, 2.0) + unit(n_in, k, -0.5j), f"at 2*e{j}-0.5i*e{k}")
    if n_in:
        expect(gen(n_in), "at a generic vector")
        expect(gen(n_in, 3).real.astype(complex) * 1e3, "at a large real vector")
        for c in (1e-100, 1e-20, 1e-10, 1e20, 1e100):
            expect(gen(n_in, 1) * c, f"at a generic vector times {c}", c)
    return A


def adjoint_pair(label, fwd, adj, n_in, n_out, rec, tol=1e-9):
    A = matrix(label + " forward", fwd, n_in, n_out, rec, tol)
    H = matrix(label + " adjoint", adj, n_out, n_in, rec, tol)
    d = np.abs(H - A.conj().T)
    scale = max(1.0, float(np.max(np.abs(A), initial=0)))
    if d.size and not np.all(d <= tol * scale):
        i, j = np.unravel_index(int(np.argmax(d)), d.shape)
        raise Violation(f"{label}: <A e{i}, e{j}> = {A[j, i]} but <e{i}, A* e{j}> = {np.conj(H[i, j])}")
    rec.trace()
    rec.outcome(np.round(A, 8).tobytes())
    return A


DEFAULTS = {"dirs": 1, "spin": 0, "eta": 1, "harmonic": False}


def nondefault(**kw):
    """The options that differ from their defaults: leaving the others out exercises the defaults."""
    return {k: v for k, v in kw.items() if v != DEFAULTS[k]}
