"""C12: noise specifications are interpreted consistently or refused."""
import itertools

import numpy as np

from checks.c11 import M, det
from mc.core import Violation
from pxmcmc.forward import ForwardOperator
from pxmcmc.mcmc import PxMCMC, PxMCMCParams
from pxmcmc.prior import L1

PROPERTY = "C12"
LEVEL = "model_checking"
ASSUMES = ["misfit and gradient are quadratic and linear in the residual: a basis of residuals and their pairwise sums determine them"]
RULE = "every noise specification over the alphabet (scalars, vectors, covariance matrices, malformed shapes, settings) x data size x real/complex data; misfit and gradient on a basis of residuals against the explicit formula"
BOUNDS = {"quick": "1..4 data, 20 scalars of 13 types, vectors of 9 number types, all sigma vectors over {0.5,1,2} and over {1e-5,1,3e4}, {1e-9,1e9} and {1e-60,1e-55} (3 data) resp. 2 letters (4 data), all positive definite matrices with diagonal in {1,2} and off-diagonal in {-0.5,0,0.5} up to 3 data; all non-square shapes <= 4x4; all wrong lengths <= 7; four three-dimensional shapes; 10 settings; all complex covariances of 2..3 data over 5 correlations; 30, 200, 700 and 1500 data",
          "thorough": "1..6 data, all sigma vectors over {0.5,1,2} up to 5 data and over {1e-5,1,3e4}, {1e-9,1e9} and {1e-60,1e-55} up to 3, all positive definite matrices with diagonal {1,1.5,2} and off-diagonal {-0.5,-0.2,0,0.2,0.5} for 2..3 data and over {0,0.3} for 4 data; all complex covariances of 2..3 data over 5 correlations; 30, 200, 700, 1500 and 3000 data"}


def cases(tier):
    q = tier == "quick"
    out = []
    for dc in (False, True):
        for n in range(1, 5 if q else 7):
            out.append({"kind": "equal", "n": n, "dc": dc})
            if n <= (4 if q else 5):
                out.append({"kind": "vectors", "n": n, "dc": dc, "alpha": [0.5, 1.0, 2.0] if n <= 3 or not q else [0.5, 2.0]})
            out.append({"kind": "refuse", "n": n, "dc": dc})
        for n in (1, 2, 3):
            for d0 in (1.0, 2.0) if q else (1.0, 1.5, 2.0):
                out.append({"kind": "cov", "n": n, "dc": dc, "d0": d0, "diag": [1.0, 2.0] if q else [1.0, 1.5, 2.0],
                            "off": [-0.5, 0.0, 0.5] if q else [-0.5, -0.2, 0.0, 0.2, 0.5]})
        for n in (2, 3):
            out.append({"kind": "hermitian", "n": n, "dc": True, "off": ["0", "0.4", "0.4j", "0.3-0.2j", "-0.2+0.4j"]})
        for n in (30, 200, 700, 1500) if q else (30, 200, 700, 1500, 3000):
            out.append({"kind": "many", "n": n, "dc": dc})
        if not q:
            out.append({"kind": "cov", "n": 4, "dc": dc, "d0": 1.0, "diag": [1.0, 2.0], "off": [0.0, 0.3]})
    return out


def residuals(n, cplx):
    if n > 9:
        for k in range(3):
            yield det((n,), 4 + k, cplx)
        for k in range(0, n, max(1, n // 10)):
            e = np.zeros(n, dtype=complex if cplx else float)
            e[k] = 1
            yield e
        return
    for k in range(n):
        for u in (1, 1j) if cplx else (1,):
            e = np.zeros(n, dtype=complex if cplx else float)
            e[k] = u
            yield e
    for j, k in itertools.combinations(range(n), 2):
        for u in (1, 1j) if cplx else (1,):
            e = np.zeros(n, dtype=complex if cplx else float)
            e[j], e[k] = 1, u
            yield e
    yield det((n,), 4, cplx)


def probe(n, dc, sig):
    data = det((n,), 2, dc)
    A = det((n, 2), 0, dc)
    keep = np.array(sig, copy=True)
    f = ForwardOperator(data, sig, "analysis", measurement=M(A), nparams=2)
    if not np.array_equal(keep, np.asarray(sig)):
        raise Violation(f"building an operator changed sig_d from {keep!r} to {sig!r}")
    lp = PxMCMC(f, L1("synthesis", None, None, 0.1), PxMCMCParams(nsamples=1, complex=dc, track=[]))
    mis, gr = [], []
    for r in residuals(n, dc):
        v = lp.logpi(np.zeros(2), data - r)[1]
        if np.iscomplexobj(v) and abs(np.imag(v)) > 1e-12:
            raise Violation(f"sig_d={sig!r}: misfit {v} is not real")
        mis.append(float(np.real(v)))
        gr.append(np.array(f.calc_gradg(data + r)))
    return np.array(mis), np.array(gr), A


def formula(n, dc, Cinv, A):
    mis = [float(np.real(r.conj() @ Cinv @ r)) for r in residuals(n, dc)]
    gr = [A.conj().T @ (Cinv @ r) for r in residuals(n, dc)]
    return np.array(mis), np.array(gr)


def agree(label, n, dc, sig, Cinv, rec):
    try:
        mis, gr, A = probe(n, dc, sig)
    except Violation:
        raise
    except Exception as e:
        raise Violation(f"{label}: {type(e).__name__}: {e}")
    wm, wg = formula(n, dc, Cinv, A)
    if not np.allclose(mis, wm, rtol=1e-9, atol=1e-10):
        k = int(np.argmax(np.abs(mis - wm)))
        raise Violation(f"{label}: misfit of residual {list(residuals(n, dc))[k]!r} is {mis[k]}, expected {wm[k]}")
    if gr.shape != wg.shape or not np.allclose(gr, wg, rtol=1e-9, atol=1e-10):
        raise Violation(f"{label}: gradients {gr!r}, expected {wg!r}")
    rec.trace()
    rec.step(len(wm))
    rec.state(label)
    rec.outcome(np.round(wm, 8).tobytes())


def run_case(case, rec):
    n, dc, kind = case["n"], case["dc"], case["kind"]
    what = f"{n} {'complex' if dc else 'real'} data"
    if kind == "equal":
        for s in (0.5, 1.0, 2.0, 0.1, 3, np.float64(1.7), np.float32(0.25), np.int64(2), np.int32(3), np.array(0.5), np.array(4)):
            Ci = np.eye(n) / float(s) ** 2
            agree(f"{what}, scalar sig_d={s!r}", n, dc, s, Ci, rec)
            agree(f"{what}, sig_d vector of {s!r}", n, dc, np.full(n, s), Ci, rec)
            agree(f"{what}, covariance {s!r}^2 I", n, dc, np.eye(n) * float(s) ** 2, Ci, rec)
        for s in (np.int8(100), np.uint8(20), np.int16(200), np.uint16(300), np.int32(50000), np.uint32(70000), np.int64(2), np.float16(300), np.uint8([30])[0]):
            Ci = np.eye(n) / float(s) ** 2
            agree(f"{what}, scalar sig_d={s!r}", n, dc, s, Ci, rec)
            agree(f"{what}, sig_d vector of {s!r}", n, dc, np.full(n, s), Ci, rec)
    elif kind == "vectors":
        for v in itertools.product(case["alpha"], repeat=n):
            v = np.array(v)
            agree(f"{what}, sig_d={v!r}", n, dc, v, np.diag(1 / v ** 2), rec)
            agree(f"{what}, covariance diag({v!r}^2)", n, dc, np.diag(v ** 2), np.diag(1 / v ** 2), rec)
        for v in itertools.chain(itertools.product((1e-5, 1.0, 3e4), repeat=n), itertools.product((1e-9, 1e9), repeat=n), itertools.product((1e-60, 1e-55), repeat=n)) if n < 4 else ():
            v = np.array(v)
            agree(f"{what}, sig_d={v!r}", n, dc, v, np.diag(1 / v ** 2), rec)
            agree(f"{what}, covariance diag({v!r}^2)", n, dc, np.diag(v ** 2), np.diag(1 / v ** 2), rec)
        for t in ("int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "float16", "float32"):
            v = np.resize(np.array([20, 100, 3], dtype=t), n)
            agree(f"{what}, sig_d={v!r}", n, dc, v, np.diag(1 / v.astype(float) ** 2), rec)
        iv = np.arange(1, n + 1)
        agree(f"{what}, integer sig_d={iv!r}", n, dc, iv, np.diag(1 / iv.astype(float) ** 2), rec)
    elif kind == "cov":
        pairs = list(itertools.combinations(range(n), 2))
        for dg in itertools.product(case["diag"], repeat=n - 1):
            for off in itertools.product(case["off"], repeat=len(pairs)):
                C = np.diag((case["d0"],) + dg).astype(float)
                for (i, j), v in zip(pairs, off):
                    C[i, j] = C[j, i] = v
                if np.linalg.eigvalsh(C)[0] < 0.05:
                    continue
                agree(f"{what}, covariance {C.tolist()}", n, dc, C, np.linalg.inv(C), rec)
    elif kind == "hermitian":
        pairs = list(itertools.combinations(range(n), 2))
        for dg in itertools.product((1.0, 2.0), repeat=n):
            for off in itertools.product([complex(v) for v in case["off"]], repeat=len(pairs)):
                C = np.diag(dg).astype(complex)
                for (i, j), v in zip(pairs, off):
                    C[i, j], C[j, i] = v, v.conjugate()
                if np.linalg.eigvalsh(C)[0] < 0.05:
                    continue
                agree(f"{what}, covariance {C.tolist()}", n, dc, C, np.linalg.inv(C), rec)
    elif kind == "many":
        v = 0.4 + 0.3 * (np.arange(n) % 7)
        agree(f"{what}, {n} standard deviations", n, dc, v, np.diag(1 / v ** 2), rec)
        v = 10.0 ** (np.arange(n) * 5 % 13 - 6)
        agree(f"{what}, {n} standard deviations from 1e-6 to 1e6", n, dc, v, np.diag(1 / v ** 2), rec)
        agree(f"{what}, scalar 0.7", n, dc, 0.7, np.eye(n) / 0.49, rec)
        v = 0.4 + 0.3 * (np.arange(n) % 7)
        C = np.diag(v ** 2) + 0.02 * np.exp(-np.abs(np.subtract.outer(np.arange(n), np.arange(n))) / 3.0)
        agree(f"{what}, banded covariance", n, dc, C, np.linalg.inv(C), rec)
    else:
        bad = [np.ones((a, b)) for a in range(1, 5) for b in range(1, 5) if a != b]
        bad += [np.ones(k) for k in range(0, 8) if k != n]
        bad += [np.ones(s) for s in ((n, 1, 1), (1, n, 1), (1, 1, n), (n, n, 1))]
        for sig in bad:
            refused(f"{what}, sig_d of shape {sig.shape}", lambda: ForwardOperator(det((n,), 2, dc), sig, "analysis", measurement=M(det((n, 2), 0, dc)), nparams=2), rec)
        for st in ("", "Analysis", "SYNTHESIS", "analysis ", "synth", "both", None, 0, True, "analysissynthesis"):
            refused(f"{what}, setting {st!r}", lambda: ForwardOperator(det((n,), 2, dc), 1.0, st, measurement=M(det((n, 2), 0, dc)), nparams=2), rec)
    rec.sample({"case": case})


def refused(label, build, rec):
    try:
        build()
    except Exception:
        rec.trace()
        rec.step()
        rec.state(label)
        rec.outcome("refused", label)
        return
    raise Violation(f"{label}: accepted when the operator is built")
