"""C33: an interrupted run never spoils the next one.

Explicit-state exploration of the real scripts: a state is the content of the scratch directory, a transition one run of the
script with one fault (killed before or halfway through the k-th file operation, that operation failing, or a network fault).
In every state reached the cached files are absent or complete, and an undisturbed run from it succeeds.
"""
import multiprocessing
import multiprocessing.dummy
import os
import runpy
import shutil
import struct
import sys
import tempfile
import types
import warnings

import healpy as hp
import numpy as np
from scipy import sparse

import pxmcmc
from checks import c30
from mc import fault
from mc.core import Violation, digest

fault.prepare()

PROPERTY = "C33"
LEVEL = "model_checking"
KIND = "crash"
ASSUMES = ["a killed process loses what it had not handed to the operating system; what it had is kept (no reordering of writes by the disk)",
           "one run at a time; the simulation's server is replaced by one that sends a small map in the same format",
           "directory operations (rename) are atomic"]
RULE = ("breadth-first search over directory contents: from every state, one run of the script for every fault (each file operation x killed before / halfway / failing; "
        "each network fault at each chunk); every state is checked and then left to an undisturbed run, and another after it")
BOUNDS = {"quick": "lensing download (maps of nside 1 and 16): all sequences of 2 faults; path matrix (3 paths, L 4): all sequences of 2 faults",
          "thorough": "lensing download (nside 1, 2, 8, 16): all sequences of 3 faults; path matrix (1 and 3 paths, L 4 and 6): all sequences of 3 faults"}
EXP = c30.EXP
HOST = "http://cosmo.phys.hirosaki-u.ac.jp/takahasi/allsky_raytracing/sub1/nres12/"
BIN = "allskymap_nres12r000.zs16.mag.dat"
FITS = "takahasi_4096_000_zs16_kappa.fits"
MAXSTATES = 4000  # per case; beyond, states are checked but not expanded
PARTS = 8  # the states one fault away are split over this many cases


# ---------------------------------------------------------------- the server


class HTTPError(OSError):
    pass


class Headers(dict):
    def get(self, k, d=None):
        return next((v for q, v in self.items() if q.lower() == k.lower()), d)

    def __getitem__(self, k):
        v = self.get(k)
        if v is None:
            raise KeyError(k)
        return v

    def __contains__(self, k):
        return self.get(k) is not None


class Raw:
    """The body in chunks; drop: the connection breaks after that many chunks, end: it ends there."""

    def __init__(self, body, chunk, drop=None, end=None):
        self.body, self.chunk, self.drop, self.limit, self.pos, self.reads = body, chunk, drop, end, 0, 0
        self.decode_content = False

    def read(self, n=-1, decode_content=None, **kw):
        if n is None or n < 0:
            out = b""
            while True:
                b = self.read(self.chunk)
                if not b:
                    return out
                out += b
        if self.drop is not None and self.reads >= self.drop:
            raise ConnectionError("connection broken")
        if self.limit is not None and self.reads >= self.limit:
            return b""
        self.reads += 1
        b = self.body[self.pos : self.pos + min(n, self.chunk)]
        self.pos += len(b)
        return b

    def stream(self, amt=65536, decode_content=None):
        while True:
            b = self.read(amt)
            if not b:
                return
            yield b

    def close(self):
        pass

    def release_conn(self):
        pass


class Response:
    def __init__(self, url, status, raw, length):
        self.url, self.status_code, self.raw = url, status, raw
        self.headers = Headers({"Content-Length": str(length), "Content-Type": "application/octet-stream"})
        self.ok = status < 400
        self.reason = "OK" if self.ok else "Error"

    def raise_for_status(self):
        if not self.ok:
            raise HTTPError(f"{self.status_code} Error for url: {self.url}")

    def iter_content(self, chunk_size=1, decode_unicode=False):
        return self.raw.stream(chunk_size or 65536)

    @property
    def content(self):
        return self.raw.read()

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def __bool__(self):
        return self.ok


def modules(body, chunk, net, asked):
    """Stand-ins for requests and tqdm."""

    def get(url, *a, **kw):
        asked.append(url)
        if net and net[0] == "unreachable":
            raise ConnectionError("no route to host")
        if net and net[0] == "status" or url != HOST + BIN:
            page = b"<html><body>sorry</body></html>" * 30
            return Response(url, net[1] if net else 404, Raw(page, chunk), len(page))
        raw = Raw(body, chunk, **({net[0]: net[1]} if net else {}))
        return Response(url, 200, raw, len(body))

    rq = types.ModuleType("requests")
    rq.get = get
    rq.request = lambda method, url, *a, **k: get(url, *a, **k)
    rq.exceptions = types.ModuleType("requests.exceptions")
    for m in (rq, rq.exceptions):
        m.HTTPError, m.ConnectionError, m.RequestException, m.Timeout = HTTPError, ConnectionError, OSError, TimeoutError

    class Session:
        def get(self, url, *a, **k):
            return get(url, *a, **k)

        def mount(self, *a):
            pass

        def close(self):
            pass

        __enter__ = lambda self: self
        __exit__ = lambda self, *a: None

    rq.Session = rq.session = Session

    class tqdm:
        def __init__(self, it=None, *a, **k):
            self.it = it

        def __iter__(self):
            return iter(self.it)

        def update(self, n=1):
            pass

        def close(self):
            pass

        __enter__ = lambda self: self
        __exit__ = lambda self, *a: None

        @classmethod
        def wrapattr(cls, stream, method, *a, **k):
            class CM:
                __enter__ = lambda self: stream
                __exit__ = lambda self, *a: None
                __getattr__ = lambda self, k: getattr(stream, k)

            return CM()

    tq = types.ModuleType("tqdm")
    tq.tqdm = tq.trange = tqdm
    tq.auto = types.ModuleType("tqdm.auto")
    tq.auto.tqdm = tqdm
    return {"requests": rq, "requests.exceptions": rq.exceptions, "tqdm": tq, "tqdm.auto": tq.auto}


def binary(nside):
    """The simulation's format: Fortran records of a header and four maps."""
    n = 12 * nside * nside
    maps = [np.array([((5 * i * i + 11 * i + 7 * m) % 89 - 40) * 0.0625 + m for i in range(n)], dtype="<f4") for m in range(4)]
    out = struct.pack("<iiqi", 12, nside, n, 12)
    for m in maps:
        out += struct.pack("<i", 4 * n) + m.tobytes() + struct.pack("<i", 4 * n)
    return out, maps[0]


# ---------------------------------------------------------------- the two programs


class Download:
    def __init__(self, case):
        self.body, self.kappa = binary(case["nside"])
        self.chunk = -(-len(self.body) // case["chunks"])
        self.name = f"download of an nside {case['nside']} map"
        self.network = [["unreachable"], ["status", 404], ["status", 503]] + [[k, j] for k in ("drop", "end") for j in range(case["chunks"])]

    def start(self, d):
        pass

    def go(self, d, net=None):
        asked = []
        sys.modules.update(modules(self.body, self.chunk, net, asked))
        path = os.path.join(EXP, "weaklensing", "download_takahasi.py")
        sys.argv = [path]
        os.chdir(d)
        sys.stdout = sys.stderr = open(os.devnull, "w")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            runpy.run_path(path, run_name="__main__")
        return asked

    def files(self, d):
        return d

    def intact(self, d, what):
        p = os.path.join(d, FITS)
        if not os.path.exists(p):
            return False
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                m = hp.read_map(p, dtype=np.float64)
        except Exception as e:
            raise Violation(f"{what}: {FITS} cannot be read ({type(e).__name__}: {e})")
        if m.shape != self.kappa.shape or not np.array_equal(m, self.kappa.astype(float)):
            raise Violation(f"{what}: {FITS} does not hold the simulation's convergence map")
        return True

    def downloaded(self, d):
        p = os.path.join(d, BIN)
        return os.path.exists(p) and open(p, "rb").read() == self.body

    def finished(self, d, what, had, value):
        if not self.intact(d, what):
            raise Violation(f"{what}: no {FITS} after an undisturbed run")
        if value and had:
            raise Violation(f"{what}: downloaded again although the download had finished")


class Paths:
    def __init__(self, case):
        self.L = case["L"]
        self.rows = np.array([[10, 20, -30, 100, 1.5, 0.5, 1, 1], [-40, 60, 50, -70, -2.0, 0.25, 1, 4], [0, 0, 10, 170, 0.5, 1.0, 2, 9]])[: case["paths"]]
        self.name = f"matrix of {case['paths']} paths at L={self.L}"
        self.network = []
        from greatcirclepaths import GreatCirclePath

        want = []
        for r in self.rows:
            g = GreatCirclePath(r[:2], r[2:4], "MW", L=self.L, weighting="average", latlon=True)
            g.get_points(points_per_rad=160)
            g.fill()
            want.append(np.asarray(g.map).ravel())
        self.want = np.array(want)

    def start(self, d):
        os.mkdir(os.path.join(d, "m"))
        np.savetxt(os.path.join(d, "data.txt"), self.rows)

    def go(self, d, net=None):
        sys.stdout = open(os.devnull, "w")
        out = os.path.join(d, "res")
        shutil.rmtree(out, ignore_errors=True)
        os.mkdir(out)
        multiprocessing.Pool = multiprocessing.dummy.Pool  # schedules: C29
        e = c30.script("phasevel", [os.path.join(d, "data.txt"), os.path.join(d, "m", "paths.npz"), "--L", self.L, "--outdir", out], d)
        if e is not None:
            raise e
        s = c30.RAN.samplers[0]
        n = s.forward.nparams
        return [np.asarray(s.forward.forward(np.eye(n)[i])) for i in range(n)], len(os.listdir(out))

    def files(self, d):
        return os.path.join(d, "m")

    def intact(self, d, what):
        p = os.path.join(d, "m", "paths.npz")
        if not os.path.exists(p):
            return False
        try:
            A = sparse.load_npz(p)
        except Exception as e:
            raise Violation(f"{what}: the path file cannot be read ({type(e).__name__}: {e})")
        if A.shape != self.want.shape or not np.allclose(A.toarray(), self.want, rtol=1e-12, atol=1e-14):
            raise Violation(f"{what}: the path file does not hold the path matrix")
        return True

    def downloaded(self, d):
        return False

    def finished(self, d, what, had, value):
        if not self.intact(d, what):
            raise Violation(f"{what}: no path file after an undisturbed run")
        from pxmcmc.transforms import SphericalWaveletTransform

        t = SphericalWaveletTransform(self.L, 2, 2)
        if value is None:
            return
        preds, nout = value
        n = len(preds)
        for i in range(n):
            if not np.allclose(preds[i], self.want @ t.inverse(np.eye(n)[i]), rtol=1e-9, atol=1e-12):
                raise Violation(f"{what}: the run did not use the path matrix")
        if nout != 1:
            raise Violation(f"{what}: {nout} results files after an undisturbed run")


# ---------------------------------------------------------------- exploration


def snapshot(d):
    out = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(root, f), "rb") as g:
                out[os.path.relpath(os.path.join(root, f), d)] = g.read()
    return out


def restore(d, snap):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for k, v in snap.items():
        p = os.path.join(d, k)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(v)


def key(snap):
    """Contents; names of scratch files do not matter."""
    return digest(repr(sorted((k if k in (BIN, FITS, "paths.npz") else "*", v) for k, v in snap.items())))


def run_case(case, rec):
    prog = (Download if case["kind"] == "download" else Paths)(case)
    top = tempfile.mkdtemp(prefix="c33-")
    d = os.path.join(top, "w")
    try:
        os.mkdir(d)
        prog.start(d)
        watched = prog.files(d)
        first = snapshot(watched)
        seen = {key(first)}
        layer = [(first, [])]
        if case["part"] == 0:
            check(prog, d, watched, first, [], rec)
        for depth in range(case["depth"]):
            nxt = []
            for snap, hist in layer:
                if len(seen) > MAXSTATES:
                    rec.extra["states_not_expanded"] += 1
                    continue
                restore(watched, snap)
                n = fault.run(lambda: prog.go(d), watched)[2]
                for f in [{"net": f} for f in prog.network] + [{"op": k, "mode": m} for k in range(1, (n or 0) + 1) for m in fault.MODES]:
                    restore(watched, snap)
                    if "net" in f:
                        fault.run(lambda: prog.go(d, f["net"]), watched)
                    else:
                        fault.run(lambda: prog.go(d), watched, f["op"], fault.MODES[f["mode"]])
                    rec.step()
                    rec.trace()
                    new = snapshot(watched)
                    if key(new) in seen:
                        continue
                    seen.add(key(new))
                    if depth > 0:
                        check(prog, d, watched, new, hist + [f], rec)
                    nxt.append((new, hist + [f]))
            if depth == 0:  # every case finds the states one fault away, and goes on from its share of them
                nxt = nxt[case["part"] :: PARTS]
                for new, hist in nxt:
                    check(prog, d, watched, new, hist, rec)
            layer = nxt
        for s in seen:
            rec.state(case["kind"], case.get("nside"), s)
        rec.sample({k: v for k, v in case.items()})
    finally:
        shutil.rmtree(top, ignore_errors=True)


def story(hist):
    return ", then ".join("network: " + " ".join(map(str, f["net"])) if "net" in f else f"{f['mode']} file operation {f['op']}" for f in hist) or "no fault"


def check(prog, d, watched, snap, hist, rec):
    """The state is sound, and undisturbed runs from it succeed."""
    what = f"{prog.name} after {story(hist)}"
    restore(watched, snap)
    prog.intact(d, what)
    had = prog.downloaded(d)
    end, msg, n, value = fault.run(lambda: prog.go(d), watched)
    rec.step(2)
    rec.trace(2)
    if end != "ok":
        raise Violation(f"{what}: the next run, undisturbed, fails with {msg or end}")
    prog.finished(d, what + " and an undisturbed run", had, value)
    done = snapshot(watched)
    end, msg, n, value = fault.run(lambda: prog.go(d), watched)
    if end != "ok":
        raise Violation(f"{what}: the second undisturbed run fails with {msg or end}")
    prog.finished(d, what + " and two undisturbed runs", True, value)
    rec.outcome(sorted((k, len(v)) for k, v in done.items()))


def cases(tier):
    q = tier == "quick"
    depth = 2 if q else 3
    out = [{"kind": "download", "nside": nside, "chunks": chunks, "depth": depth} for nside, chunks in (((1, 3), (16, 8)) if q else ((1, 3), (2, 4), (8, 6), (16, 12)))]
    out += [{"kind": "paths", "paths": paths, "L": L, "depth": depth} for paths, L in (((3, 4),) if q else ((1, 4), (3, 4), (3, 6)))]
    return [dict(c, part=i) for c in out for i in range(PARTS)]
