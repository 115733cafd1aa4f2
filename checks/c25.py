"""C25: operators, transforms and priors are pure functions.

All call histories on two differently configured objects of one class that share their argument arrays: every
call is compared with the same call made once on a fresh object with fresh arrays.
"""
import itertools
import os
import pickle
import signal

import numpy as np
from scipy import sparse

from mc.core import Recorder, Violation
from mc.linear import gen
from pxmcmc.forward import ForwardOperator, PathIntegralOperator, SphericalWaveletTransformOperator
from pxmcmc.measurements import Identity, PathIntegral, WeakLensing, WeakLensingHarmonic
from pxmcmc.prior import L1, S2_Wavelets_L1, S2_Wavelets_L1_Power_Weights
from pxmcmc.transforms import IdentityTransform, SphericalWaveletTransform

PROPERTY = "C25"
LEVEL = "model_checking"
ASSUMES = ["a history of the stated length over two objects and two argument arrays exposes hidden state",
           "reference results come from a process in which nothing else was built or called"]
RULE = ("every sequence of calls (object, method, argument) and in-place argument updates of the stated length; after each step the result, all earlier results, all arguments and all construction arrays are checked")
BOUNDS = {"quick": "19 classes/configurations, all histories of 3 operations over 2 objects x all methods x 2 arguments + 1 update; 1500 calls in a row of every method; for every construction parameter of every class, a pair of objects differing only in it: all histories of 2 operations, objects built on first use, every first operation in a process of its own",
          "thorough": "as quick with 6000 calls in a row and 4 operations (3 for the four-method transforms, with 4 over one object), and 3 for the parameter pairs"}
L = 3
NP = L * (2 * L - 1)


def _T(h=False, **k):
    return SphericalWaveletTransform(L, k.get("B", 2), k.get("J", 0), dirs=k.get("d", 1), spin=k.get("s", 0), harmonic=h)


def _path(n=4, npix=None, shift=0, scale=1.0):
    npix = npix or NP
    m = np.round(gen(n * npix).real, 1).reshape(n, npix) * scale
    m[(np.arange(n)[:, None] + np.arange(npix) + shift) % 3 == 0] = 0
    return sparse.csr_matrix(m)


WAV = {"L": L, "B": 2, "J": 0, "dirs": 1, "spin": 0, "harmonic": False}
WVAR = {"L": 4, "B": 1.5, "J": 1, "dirs": 2, "spin": 1, "harmonic": True}
MASK = (np.arange(NP).reshape(L, 2 * L - 1) % 2 != 0).astype(float)
# class -> (base construction parameters, {parameter: other value})
PAIRS = {
    "Transform": (WAV, WVAR),
    "TransformD": (dict(WAV, dirs=2, B=3), dict(WVAR, dirs=3)),
    "TransformH": (dict(WAV, dirs=2, harmonic=True), dict(WVAR, dirs=1, harmonic=False)),
    "Lens": ({"L": L, "mask": "none", "ngal": "none"}, {"L": 4, "mask": "odd", "ngal": "ramp"}),
    "LensM": ({"L": L, "mask": "odd", "ngal": "ramp"}, {"mask": "odd2", "ngal": "ramp2"}),
    "LensH": ({"L": 5}, {"L": 4}),
    "LensHup": ({"L": 2}, {"L": 6}),
    "Identity": ({"ndata": 4, "npix": 6}, {"ndata": 5, "npix": 5}),
    "Path": ({"n": 3, "npix": 5, "shift": 0, "scale": 1.0}, {"n": 4, "npix": 6, "shift": 1, "scale": 2.0}),
    "Fwd": (dict(WAV, data=0, sig="scalar", setting="synthesis", path=0), dict(B=3, J=1, dirs=2, spin=1, data=1, sig="scalar2", setting="analysis", path=1)),
    "FwdV": (dict(WAV, data=0, sig="vec", setting="synthesis", path=0), dict(data=1, sig="vec2", path=1, dirs=2)),
    "FwdM": (dict(WAV, data=0, sig="mat", setting="analysis", path=0), dict(data=1, sig="mat2", setting="synthesis", path=1)),
    "FwdP": (dict(WAV, data=0, sig="vec", setting="synthesis", path=0), dict(B=3, J=1, dirs=2, spin=1, data=1, sig="scalar2", setting="analysis", path=1)),
    "FwdW": (dict(WAV, data=0, sig="scalar", setting="synthesis"), dict(B=3, J=1, dirs=2, spin=1, data=1, sig="scalar2", setting="analysis")),
    "L1": (dict(WAV, setting="synthesis", T=0.1), dict(setting="analysis", T=0.2)),
    "L1T": (dict(WAV, setting="analysis", T=0.1), dict(T=0.2, B=3, J=1, dirs=2, spin=1)),
    "S2L1": (dict(WAV, T=0.1), dict(T=0.2, L=4, B=1.5, J=1, dirs=2, spin=1)),
    "S2L1D": (dict(WAV, T="vec", dirs=2), dict(T="vec2", B=3, J=1, dirs=3, spin=1)),
    "S2PW": (dict(WAV, B=3, J=1, T=0.1, eta=1), dict(T=0.2, L=5, B=4, J=0, dirs=2, spin=1, eta=0.5)),
    "S2PWD": (dict(WAV, B=3, T="vec", eta=0.5, dirs=2), dict(T="vec2", L=5, dirs=1, eta=2)),
}


def _rough(w):
    """A path matrix as users may assemble it: entries out of order, repeated, stored zeros."""
    row, col, val = [0, 2, 1, 0, 2, 1, 0], [3, 1, 0, 3, 2, 2, 1], np.array([0.5, 1.0, -2.0, 0.25, 0.0, 1.5, 2.0]) * (1 + w)
    if w == 0:
        return sparse.coo_matrix((val, (row, col)), shape=(3, 4))
    return sparse.csr_matrix((val, np.array([3, 1, 3, 2, 0, 2, 1]), np.array([0, 3, 5, 7])), shape=(3, 4))


def pair_world(cls, par, which):
    base, var = PAIRS[cls]
    c = dict(base)
    if which:
        c[par] = var[par]
    given = {}

    def arr(name, a):
        given[name] = a, np.array(a)
        return a

    el = c.get("L", L)
    npx = el * (2 * el - 1)
    if "B" in c:
        kw = {"dirs": c["dirs"], "spin": c["spin"]}
        t = SphericalWaveletTransform(el, c["B"], c["J"], harmonic=c["harmonic"], **kw)
    if cls.startswith("Transform"):
        n = el * el if c["harmonic"] else npx
        return t, {"forward": n, "inverse": t.ncoefs, "forward_adjoint": t.ncoefs, "inverse_adjoint": n}, given
    if cls.startswith("LensH"):
        o = WeakLensingHarmonic(el)
        return o, {"forward": el * el, "adjoint": el * el, "sks_estimate": el * el}, given
    if cls.startswith("Lens"):
        shp = (el, 2 * el - 1)
        k = np.arange(npx).reshape(shp)
        mask = {"none": None, "odd": (k % 2 != 0).astype(float), "odd2": ((k + 1) % 3 != 0).astype(float)}[c["mask"]]
        ng = {"none": None, "ramp": 1.0 + k, "ramp2": 2.0 + k}[c["ngal"]]
        if mask is not None:
            arr("mask", mask)
        if ng is not None:
            arr("ngal", ng)
        o = WeakLensing(el, mask=mask, ngal=ng)
        return o, {"forward": npx, "adjoint": npx if mask is None else int(mask.sum())}, given
    if cls == "Identity":
        o = Identity(c["ndata"], c["npix"])
        return o, {"forward": c["npix"], "adjoint": c["ndata"]}, given
    if cls == "Path":
        P = _path(c["n"], c["npix"], c["shift"], c["scale"])
        arr("path matrix", P.data)
        return PathIntegral(P), {"forward": c["npix"], "adjoint": c["n"]}, given
    if cls.startswith("Fwd"):
        nd = npx if cls == "FwdW" else 4
        data = arr("data", gen(nd, c["data"]).real.copy())
        k = np.arange(nd)
        sig = {"scalar": 0.5, "scalar2": 0.7, "vec": 0.5 + 0.1 * k, "vec2": 0.9 - 0.1 * k,
               "mat": np.diag(1.0 + k) + 0.1, "mat2": np.diag(2.0 + k) - 0.1}[c["sig"]]
        if isinstance(sig, np.ndarray):
            arr("sig_d", sig)
        wav = (el, c["B"], c["J"])
        if cls == "FwdW":
            o = SphericalWaveletTransformOperator(data, sig, c["setting"], *wav, **kw)
        else:
            P = _path(4, shift=c["path"])
            arr("path matrix", P.data)
            if cls == "FwdP":
                o = PathIntegralOperator(P, data, sig, c["setting"], *wav, **kw)
            else:
                o = ForwardOperator(data, sig, c["setting"], transform=t, measurement=PathIntegral(P),
                                    nparams=t.ncoefs if c["setting"] == "synthesis" else npx)
        return o, {"forward": t.ncoefs if c["setting"] == "synthesis" else npx, "calc_gradg": nd}, given
    T = c["T"]
    if isinstance(T, str):
        T = arr("T", {"vec": 0.02, "vec2": 0.03}[T] + 0.001 * np.arange(t.ncoefs))
    if cls.startswith("L1"):
        n = npx if c["setting"] == "analysis" else t.ncoefs
        return L1(c["setting"], t.inverse, t.inverse_adjoint, T), {"prior": n, "proxf": n}, given
    if cls.startswith("S2PW"):
        kw["eta"] = c["eta"]
    C = S2_Wavelets_L1_Power_Weights if cls.startswith("S2PW") else S2_Wavelets_L1
    return C("synthesis", t.inverse, t.inverse_adjoint, T, el, c["B"], c["J"], **kw), {"prior": t.ncoefs, "proxf": t.ncoefs}, given


def world(kind, which):
    """-> object, {method: input length}, {name: (construction array, its values before construction)}; which = 0, 1 selects the configuration."""
    w = which
    if ":" in kind:
        return pair_world(*kind.split(":"), w)
    given = {}

    def arr(name, a):
        given[name] = a, np.array(a)
        return a

    if kind == "Identity":
        o = Identity(4, 5) if w == 0 else Identity(6, 3)
        return o, {"forward": o.npix, "adjoint": o.ndata}, {}
    if kind == "PathIntegral":
        P = sparse.csr_matrix(np.round(gen(12).real, 2).reshape(3, 4) * (1 + w))
        arr("path matrix", P.data)
        o = PathIntegral(P)
        return o, {"forward": 4, "adjoint": 3}, given
    if kind == "PathIntegralRough":
        P = _rough(w)
        parts = ("row", "col", "data") if w == 0 else ("indptr", "indices", "data")
        for name in parts:
            given[f"path matrix {name}"] = (lambda name=name: getattr(P, name)), np.array(getattr(P, name))
        o = PathIntegral(P)
        return o, {"forward": 4, "adjoint": 3}, given
    if kind == "PathIntegralC":
        P = sparse.csc_matrix(np.round(gen(12), 2).reshape(3, 4) * (1 + 1j * w))
        arr("path matrix", P.data)
        o = PathIntegral(P)
        return o, {"forward": 4, "adjoint": 3}, given
    if kind == "WeakLensingHarmonic":
        o = WeakLensingHarmonic(L + w)
        n = (L + w) ** 2
        return o, {"forward": n, "adjoint": n, "sks_estimate": n}, {}
    if kind == "WeakLensing":
        mask = (np.arange(NP).reshape(L, 2 * L - 1) % (2 + w) != 0).astype(float)
        ng = 1.0 + np.arange(NP).reshape(L, 2 * L - 1)
        arr("mask", mask)
        arr("ngal", ng)
        o = WeakLensing(L, mask=mask, ngal=ng if w else None)
        return o, {"forward": NP, "adjoint": int(mask.sum())}, given
    if kind == "IdentityTransform":
        o = IdentityTransform()
        return o, {"forward": 4 + w, "inverse": 4 + w, "forward_adjoint": 4 + w, "inverse_adjoint": 4 + w}, {}
    if kind in ("Wavelet", "WaveletH", "WaveletD"):
        h = kind == "WaveletH"
        o = _T(h, B=2 if w == 0 else 1.5, d=2 if kind == "WaveletD" and w == 0 else 1, J=w)
        n = L * L if h else NP
        return o, {"forward": n, "inverse": o.ncoefs, "forward_adjoint": o.ncoefs, "inverse_adjoint": n}, {}
    if kind.startswith("Forward"):
        st = "synthesis" if kind.endswith("S") else "analysis"
        t = _T(B=2 if w == 0 else 3)
        P = sparse.csr_matrix(np.round(gen(4 * NP).real, 1).reshape(4, NP))
        data, sig = gen(4).real.copy() * (1 + w), (0.5 + 0.1 * np.arange(4)) if w == 0 else np.diag([1.0, 2, 0.5, 1]) + 0.1
        if kind.startswith("ForwardWav"):
            data, sig = gen(NP).real.copy(), 0.3 + 0.01 * np.arange(NP)
        arr("path matrix", P.data)
        arr("data", data)
        arr("sig_d", sig)
        if kind.startswith("ForwardPath"):
            o = PathIntegralOperator(P, data, sig, st, L, 2 if w == 0 else 3, 0)
        elif kind.startswith("ForwardWav"):
            o = SphericalWaveletTransformOperator(data, sig, st, L, 2 if w == 0 else 3, 0)
        else:
            o = ForwardOperator(data, sig, st, transform=t, measurement=PathIntegral(P), nparams=t.ncoefs if st == "synthesis" else NP)
        return o, {"forward": o.nparams, "calc_gradg": len(data)}, given
    t = _T(B=2 if w == 0 else 1.5)
    if kind == "L1S":
        T = arr("T", 0.1 + 0.05 * np.arange(5))
        o = L1("synthesis", None, None, T if w == 0 else 0.3)
        return o, {"prior": 5, "proxf": 5}, given
    if kind == "L1A":
        o = L1("analysis", t.inverse, t.inverse_adjoint, 0.05 * (1 + w))
        return o, {"prior": NP, "proxf": NP}, {}
    cls = S2_Wavelets_L1 if kind == "S2L1" else S2_Wavelets_L1_Power_Weights
    if kind == "S2PW":  # no wavelet scale may vanish
        b, j, kw = 3, w, {"eta": 1 - 0.5 * w}
    else:
        b, j, kw = 2 + w, 0, {}
    t = _T(B=b, J=j)
    T = arr("T", 0.02 + 0.001 * np.arange(t.ncoefs))
    o = cls("synthesis", t.inverse, t.inverse_adjoint, T, L, b, j, **kw)
    return o, {"prior": t.ncoefs, "proxf": t.ncoefs}, given


KINDS = ["Identity", "PathIntegral", "PathIntegralC", "PathIntegralRough", "WeakLensingHarmonic", "WeakLensing", "IdentityTransform", "Wavelet", "WaveletH", "WaveletD",
         "ForwardS", "ForwardA", "ForwardPathS", "ForwardWavS", "ForwardWavA", "L1S", "L1A", "S2L1", "S2PW"]


def cases(tier):
    q = tier == "quick"
    out = []
    for kind in KINDS:
        out.append({"kind": kind, "depth": 1, "objs": 2, "many": 1500 if q else 6000})
        n = 4 if kind in ("IdentityTransform", "Wavelet", "WaveletH", "WaveletD") else 3 if kind == "WeakLensingHarmonic" else 2
        nops = 2 * n * 2 + 1
        for first in range(nops):
            depth = 3 if q or n == 4 else 4
            out.append({"kind": kind, "first": first, "depth": depth, "objs": 2})
            if not q and n == 4 and first < 2 * n + 1:
                out.append({"kind": kind, "first": first, "depth": 4, "objs": 1})
    for cls, (_, var) in PAIRS.items():
        n = 4 if cls.startswith("Transform") else 3 if cls.startswith("LensH") else 2
        for par in var:
            for first in range(2 * n * 2):
                out.append({"kind": f"{cls}:{par}", "first": first, "depth": 2 if q else 3, "objs": 2, "lazy": True})
    return out


def fresh_args(lengths, level):
    """Two argument sets per length; ``level`` counts in-place updates."""
    d = {}
    for n in sorted(lengths):
        for i in (0, 1):
            x = gen(n, i)
            if i == 1:
                x = x.real.copy()
            d[n, i] = x
    for _ in range(level):
        for x in d.values():
            update(x)
    return d


def update(x):
    x *= -0.5
    x += 0.125


def in_child(fn):
    """Run fn in a forked process, so that nothing it builds stays in this one."""
    r, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                out = (True, fn())
            except Violation as v:
                out = (False, ("violation", str(v), v.case))
            except Exception as e:
                out = (False, ("error", f"{type(e).__name__}: {e}", None))
            with os.fdopen(wfd, "wb") as f:
                pickle.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(wfd)
    try:
        with os.fdopen(r, "rb") as f:
            buf = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    os.waitpid(pid, 0)
    if not buf:
        raise Violation("the interpreter died while running the code under test")
    ok, val = pickle.loads(buf)
    if ok:
        return val
    raise Violation(val[1], val[2])


_shape, _oracle = {}, {}


def shape_of(kind, w):
    if (kind, w) not in _shape:
        _shape[kind, w] = in_child(lambda: dict(world(kind, w)[1]))
    return _shape[kind, w]


def oracle(kind, w, meth, i, level):
    key = (kind, w, meth, i, level)
    if key not in _oracle:
        def values():  # every value from an object of its own
            return {(kind, w, m, j, level): np.array(getattr(world(kind, w)[0], m)(fresh_args({k}, level)[k, j]))
                    for m, k in shape_of(kind, w).items() for j in (0, 1)}
        _oracle.update(in_child(values))
    return _oracle[key]


def run_case(case, rec):
    kind = case["kind"]
    objs = range(case["objs"])
    shape = {w: shape_of(kind, w) for w in objs}
    ops = [(w, m, i) for w in objs for m in shape[w] for i in (0, 1)] + ["update"]
    for level in range(case["depth"]):
        for w, m, i in ops[:-1]:
            oracle(kind, w, m, i, level)
    if "ops" in case:
        seqs = [tuple(tuple(o) if isinstance(o, list) else o for o in case["ops"])]
    elif "many" in case:
        seqs = None
    else:
        if case["first"] >= len(ops):
            return
        seqs = [(ops[case["first"]],) + r for r in itertools.product(ops, repeat=case["depth"] - 1)]

    def body():
        r = Recorder()
        if seqs is None:
            many(case, r, kind, objs, ops[:-1])
        else:
            histories(case, r, kind, objs, shape, seqs)
        return r

    try:
        rec.merge(in_child(body))
    except Violation as v:
        raise Violation(str(v), v.case or case)


def many(case, rec, kind, objs, ops):
    """Each method many times in a row, first alone, then in turn with the others."""
    for w, m, i in ops:
        o, sh, _ = world(kind, w)
        x = fresh_args({sh[m]}, 0)[sh[m], i]
        want = oracle(kind, w, m, i, 0)
        for k in range(case["many"]):
            got = np.asarray(getattr(o, m)(x))
            rec.step()
            if got.shape != want.shape or not np.allclose(got, want, rtol=1e-9, atol=1e-10):
                raise Violation(f"{kind}: call number {k + 1} of {m} on one object gives {got!r}, a fresh object gives {want!r}", case)
        rec.trace()
        rec.state(kind, w, m, i, "many")
    built = {w: world(kind, w) for w in objs}
    for k in range(case["many"]):
        w, m, i = ops[(k * 7 + k // len(ops)) % len(ops)]
        n = built[w][1][m]
        got = np.asarray(getattr(built[w][0], m)(fresh_args({n}, 0)[n, i]))
        rec.step()
        want = oracle(kind, w, m, i, 0)
        if got.shape != want.shape or not np.allclose(got, want, rtol=1e-9, atol=1e-10):
            raise Violation(f"{kind}: after {k} calls on two objects, object {w} {m}(argument {i}) = {got!r}, a fresh object gives {want!r}", case)
    rec.trace()


def histories(case, rec, kind, objs, shape, seqs):
    lazy = case.get("lazy")
    lengths = {n for w in objs for n in shape[w].values()}
    built = {} if lazy else {w: world(kind, w) for w in objs}
    for s_i, seq in enumerate(seqs):
        # objects live on across histories (longer histories are therefore explored too); arguments are fresh
        args = fresh_args(lengths, 0)
        level, kept = 0, []

        def fail(t, msg):
            raise Violation(f"{kind}, history {list(seq)}, step {t}: {msg}", dict(case, ops=[list(o) if isinstance(o, tuple) else o for o in seq]))

        for t, op in enumerate(seq):
            if op == "update":
                level += 1
                for x in args.values():
                    update(x)
                kept = [(r, c, lab) for r, c, lab in kept if not any(np.shares_memory(r, x) for x in args.values())]
            else:
                w, m, i = op
                n = shape[w][m]
                x = args[n, i]
                before = {k: v.copy() for k, v in args.items()}
                try:
                    if w not in built:
                        built[w] = world(kind, w)
                    res = getattr(built[w][0], m)(x)
                except Exception as e:
                    fail(t, f"{m} raised {type(e).__name__}: {e}")
                arr = np.asarray(res)
                want = oracle(kind, w, m, i, level)
                if arr.shape != want.shape or not np.allclose(arr, want, rtol=1e-9, atol=1e-10):
                    fail(t, f"object {w} {m}(argument {i}) = {arr!r}, a fresh object gives {want!r}")
                for k, v in args.items():
                    if not np.array_equal(v, before[k]):
                        fail(t, f"{m} changed an argument")
                kept.append((arr, arr.copy(), f"step {t}"))
            for r, c, lab in kept:
                if not np.array_equal(r, c):
                    fail(t, f"the result of {lab} was overwritten")
            rec.step()
            rec.state(kind, tuple(str(o) for o in seq[: t + 1]))
        rec.trace()
        if lazy or s_i % 50 == 0 or s_i == len(seqs) - 1:
            for w in built:
                for k, (a, orig) in built[w][2].items():
                    if not np.array_equal(np.asarray(a() if callable(a) else a), orig):
                        fail(len(seq), f"construction array '{k}' was changed")
            built = {} if lazy else {w: world(kind, w) for w in objs}
    for (k, w, m, i, lv), v in list(_oracle.items()):
        if k == kind:
            rec.outcome(k, w, m, i, lv, np.round(v, 8).tobytes())
    rec.sample({"kind": kind, "history": [str(o) for o in seqs[-1]]})
