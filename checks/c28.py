"""C28: standard output is suppressed only during the healpix call.

All programs of a small language (printing, suppression blocks, wrapper calls that succeed or fail, exceptions,
handlers, replacing sys.stdout inside a block) up to a size, run on the real context manager and wrappers.
healpy's two transforms are wrapped, before pxmcmc is imported, to print before and after they run.
"""
import io
import sys

import healpy as hp
import numpy as np

_real = {"map2alm": hp.map2alm, "alm2map": hp.alm2map}
CALLS = []


def _noisy(name):
    def f(*a, **k):
        print("noise of healpy before", name)
        sys.stdout.write("more noise")
        CALLS.append((name, sys.stdout))
        r = _real[name](*a, **k)
        print("noise of healpy after", name)
        sys.stdout.flush()
        return r

    return f


hp.map2alm, hp.alm2map = _noisy("map2alm"), _noisy("alm2map")

from mc.core import Violation
from pxmcmc import utils

PROPERTY = "C28"
LEVEL = "model_checking"
ASSUMES = ["healpy writes through sys.stdout (suppression of output written by C code directly to file descriptor 1 is not claimed)"]
RULE = "every program of the language up to the size bound: output seen by the caller's stream, propagated exception and the stream afterwards are compared with the language's semantics; every argument combination of the wrappers against healpy"
BOUNDS = {"quick": "programs of up to 5 nodes (nesting up to 5), wrappers on nside 1, 2, 4 x lmax 0..4 and on nside 16, 32, 64, 128 with lmax to 200 x options", "thorough": "programs of up to 6 nodes, nside 1, 2, 4, 8 x lmax 0..8 and nside 16, 32, 64, 128 with lmax to 200"}
LEAVES = ["print", "raise", "interrupt", "map2alm", "alm2map", "badmap", "replace"]


class Boom(Exception):
    pass


class Stop(BaseException):
    pass


_memo = {}


def blocks(n):
    """All statement sequences with n nodes in total."""
    if n == 0:
        return [()]
    if n not in _memo:
        out = []
        for k in range(1, n + 1):  # size of the first statement
            firsts = [(l,) for l in LEAVES] if k == 1 else []
            firsts += [(w, b) for w in ("suppress", "try") for b in blocks(k - 1)]
            for f in firsts:
                out += [(f,) + r for r in blocks(n - k)]
        _memo[n] = out
    return _memo[n]


def prune(b):
    """Nothing runs after an uncaught exception, so drop programs with dead code, and empty blocks."""
    for i, s in enumerate(b):
        if s[0] in ("raise", "interrupt", "badmap") and i < len(b) - 1:
            return False
        if len(s) == 2 and not prune(s[1]):
            return False
    return True


def cases(tier):
    q = tier == "quick"
    n = 5 if q else 6
    out = [{"op": "programs", "size": k, "part": p, "parts": 1 if k < 4 else 16} for k in range(1, n + 1) for p in range(1 if k < 4 else 16)]
    for nside in (1, 2, 4) if q else (1, 2, 4, 8):
        for lmax in range(5 if q else 9):
            out.append({"op": "wrappers", "nside": nside, "lmax": lmax})
    for nside, lmax in ((16, 20), (32, 31), (32, 64), (64, 100), (128, 200)):
        out.insert(0, {"op": "wrappers", "nside": nside, "lmax": lmax})
    return out


MAP = np.arange(12.0) - 3
ALM = np.array([1.0, 0.5, 0.25 + 0.5j])


def model(b, quiet, out):
    """-> exception name or None; appends what reaches the caller's stream."""
    for s in b:
        if s[0] == "print":
            if not quiet:
                out.append("p")
        elif s[0] == "raise":
            return "Boom"
        elif s[0] == "interrupt":
            return "Stop"
        elif s[0] == "badmap":
            return "bad"
        elif s[0] == "replace":
            quiet = quiet  # only done inside a block, see execute
        elif s[0] == "suppress":
            e = model(s[1], True, out)
            if e:
                return e
        elif s[0] == "try":
            e = model(s[1], quiet, out)
            if e == "Stop":
                return e
    return None


def execute(b, depth, errors):
    for s in b:
        if s[0] == "print":
            print("p", end="")
        elif s[0] == "raise":
            raise Boom()
        elif s[0] == "interrupt":
            raise Stop()
        elif s[0] == "replace":
            if depth:  # a program that redirects the output inside a block; the block ends as always
                sys.stdout = io.StringIO()
        elif s[0] in ("map2alm", "alm2map", "badmap"):
            before = sys.stdout
            try:
                if s[0] == "map2alm":
                    r, w = utils.map2alm(MAP, 1), REF["map2alm"]
                elif s[0] == "alm2map":
                    r, w = utils.alm2map(ALM, 1), REF["alm2map"]
                else:
                    utils.map2alm(np.arange(11.0), 1)
                    errors.append("map2alm accepted a map of 11 pixels")
                    continue
                if not np.array_equal(r, w):
                    errors.append(f"{s[0]} returned {r}, healpy returns {w}")
            finally:
                if sys.stdout is not before:
                    errors.append(f"{s[0]} left another stream as standard output")
        elif s[0] == "suppress":
            before = sys.stdout
            try:
                with utils.suppress_stdout():
                    if sys.stdout is before:
                        errors.append("standard output was not redirected inside the block")
                    execute(s[1], depth + 1, errors)
            finally:
                if sys.stdout is not before:
                    errors.append("the block did not restore the stream it found")
        elif s[0] == "try":
            try:
                execute(s[1], depth, errors)
            except Exception:
                pass


REF = {"map2alm": _real["map2alm"](MAP, 1), "alm2map": _real["alm2map"](ALM, 1)}


def run_case(case, rec):
    outer = sys.stdout
    try:
        if case["op"] == "programs":
            programs(case, rec)
        else:
            wrappers(case, rec)
    finally:
        sys.stdout = outer


def tup(x):
    return tuple(tup(y) for y in x) if isinstance(x, (list, tuple)) else x


def programs(case, rec):
    todo = [tup(case["program"])] if "program" in case else [b for b in blocks(case["size"]) if prune(b)][case["part"] :: case["parts"]]
    for b in todo:
        want = []
        exc = model(b, False, want)
        stream = io.StringIO()
        sys.stdout = stream
        errors, got = [], None
        try:
            execute(b, 0, errors)
        except Boom:
            got = "Boom"
        except Stop:
            got = "Stop"
        except Exception as e:
            got = "bad"
        after = sys.stdout
        if after is not stream:
            errors.append("the caller's stream is not standard output afterwards")
        if stream.closed:
            errors.append("the caller's stream was closed")
        elif stream.getvalue() != "".join(want):
            errors.append(f"the caller's stream holds {stream.getvalue()!r}, expected {''.join(want)!r}")
        if got != exc:
            errors.append(f"exception {got}, expected {exc}")
        if errors:
            raise Violation(f"program {b}: {errors[0]}", dict(case, program=b))
        rec.step(case["size"])
        rec.trace()
        rec.state(b)
        rec.outcome(exc, tuple(want))
    rec.sample({"program": str(todo[-1])})


def same(a, b, nside):
    """Bit for bit; large transforms may be summed by several threads."""
    return np.array_equal(a, b) if nside < 16 else a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-9 * np.max(np.abs(b))))


def wrappers(case, rec):
    nside, lmax = case["nside"], case["lmax"]
    npix = 12 * nside * nside
    nlm = (lmax + 1) * (lmax + 2) // 2
    m = np.cos(np.arange(npix) * 1.7) + 0.1 * np.arange(npix)
    alm = np.sin(np.arange(nlm) * 0.7) + 1j * np.cos(np.arange(nlm) * 1.3) * (np.arange(nlm) > lmax)
    calls = []
    for kw in ({}, {"iter": 0}, {"iter": 1}, {"mmax": lmax // 2}, {"use_weights": False, "iter": 2}, {"pol": False}):
        calls.append(("map2alm", (m, lmax), kw))
    calls.append(("map2alm", ([m, 2 * m, m * m], lmax), {"pol": False, "iter": 1}))
    if lmax >= 2:  # polarised; healpix aborts below
        calls.append(("map2alm", ([m, 2 * m, m * m], lmax), {}))
        calls.append(("alm2map", ([alm, 2 * alm, alm * 0.5], nside), {}))
    for kw in ({}, {"lmax": lmax}, {"pixwin": False}, {"fwhm": 0.3}, {"sigma": 0.2}, {"inplace": False}):
        calls.append(("alm2map", (alm, nside), kw))
    calls.append(("alm2map", ([alm, 2 * alm, alm * 0.5], nside), {"pol": False}))
    for name, a, kw in calls:
        stream = io.StringIO()
        copies = [np.array(x) for x in a]
        try:
            want = np.array(_real[name](*[c.copy() if c.ndim else c.item() for c in copies], **kw))
        except Exception as e:
            want = e
        sys.stdout = stream
        try:
            got = getattr(utils, name)(*a, **kw)
        except Exception as e:
            got = e

        def fail(msg):
            raise Violation(f"{name}, nside {nside}, lmax {lmax}, {kw}: {msg}", case)

        if isinstance(want, Exception):
            if type(got) is not type(want):
                fail(f"gave {got!r}, healpy raises {want!r}")
        elif isinstance(got, Exception) or not same(np.array(got), want, nside):
            fail(f"{got!r} is not what healpy returns")
        if sys.stdout is not stream:
            fail("standard output was not restored")
        if stream.getvalue():
            fail(f"wrote {stream.getvalue()!r} to standard output")
        if any(not np.array_equal(np.array(x), c) for x, c in zip(a, copies)):
            fail("an argument was changed")
        rec.step()
        rec.trace()
        rec.state(name, nside, lmax, str(kw))
        rec.outcome(name, nside, lmax, str(kw), isinstance(want, Exception))
    rec.sample({"nside": nside, "lmax": lmax, "calls": len(calls)})
