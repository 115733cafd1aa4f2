"""C29: path matrices keep path order under any worker schedule.

The example is loaded from /repo with the worker pools of the standard library replaced by a controlled scheduler:
every completion order that the given number of workers allows is explored by depth-first search over its choices.
A few runs on the real multiprocessing.Pool bind the scheduler to the implementation.
"""
import math
import collections
import concurrent.futures as cf
import contextlib
import importlib.util
import itertools
import multiprocessing
import multiprocessing.pool
import os
import pickle
import sys
import tempfile
import warnings

import greatcirclepaths
import numpy as np
from scipy import sparse

from mc.core import Violation

PROPERTY = "C29"
LEVEL = "model_checking"
ASSUMES = ["greatcirclepaths finds the pixels of one great circle correctly (its results are memoised)",
           "workers share nothing with the parent but pickled arguments and results (multiprocessing.Pool); the parent observes completions only while it waits"]
RULE = "depth-first search over all scheduler choices (which running task completes next) for every number of paths, workers and bandlimit; every sign pattern of small data files"
BOUNDS = {"quick": "1..4 paths, 1..4 and 16 workers, L 2, 3 and default, all completion orders; all 400 pairs of paths over 5 ends, L 40; 17..257 paths, 1..64 workers, 6 completion orders each; 3 runs on the real pool; data files of 1..4 rows, 4 error values per row, and of 10..12000",
          "thorough": "1..6 paths, 1..6 and 16 workers, L 2..5; all 400 pairs of paths over 5 ends, L 40; 17..1025 paths, 6 completion orders each; 8 runs on the real pool; data files of 1..5 rows, and of 10..12000"}

_GCP = greatcirclepaths.GreatCirclePath
_cache = {}


def _key(x):
    return (tuple(np.asarray(x, dtype=float).ravel()) if isinstance(x, (list, tuple, np.ndarray)) else x)


class Path:
    """Stand-in for GreatCirclePath: the same results, computed once per distinct use."""

    def __init__(self, *a, **k):
        self.__dict__["_log"] = [("__init__", a, k)]

    def _build(self):
        (_, a, k), rest = self._log[0], self._log[1:]
        p = _GCP(*a, **k)
        for name, a, k in rest:
            getattr(p, name)(*a, **k)
        return p

    def get_points(self, *a, **k):
        self._log.append(("get_points", a, k))

    def fill(self, *a, **k):
        self._log.append(("fill", a, k))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        key = tuple((n, tuple(_key(x) for x in a), tuple(sorted((i, _key(x)) for i, x in k.items()))) for n, a, k in self._log)
        if name == "map":
            if key not in _cache:
                _cache[key] = np.asarray(self._build().map)
            return _cache[key].copy()
        return getattr(self._build(), name)


# ---------------------------------------------------------------- the scheduler


class Sched:
    """FIFO dispatch of tasks to workers; ``choose(n)`` picks which running task completes."""

    def __init__(self, prefix=(), policy=None):
        self.policy = policy
        self.prefix, self.path, self.widths = list(prefix), [], []
        self.done_order = []

    def choose(self, n):
        i = len(self.path)
        c = self.prefix[i] if i < len(self.prefix) else self.policy(i, n) if self.policy else 0
        self.path.append(c)
        self.widths.append(n)
        return c


CUR = None


class Task:
    def __init__(self, pool, call, callback=None, error_callback=None):
        self.pool, self.call, self.cb, self.ecb = pool, call, callback, error_callback
        self.finished = False
        self.value = self.error = None

    def finish(self):
        try:
            self.value = pickle.loads(pickle.dumps(self.call()))
        except Exception as e:
            self.error = e
        self.finished = True
        CUR.done_order.append(self)
        if self.error is None and self.cb:
            self.cb(self.value)
        if self.error is not None and self.ecb:
            self.ecb(self.error)

    def result(self):
        while not self.finished:
            self.pool._step()
        if self.error is not None:
            raise self.error
        return self.value


class Result:
    """AsyncResult of one or of several tasks."""

    def __init__(self, tasks, single=False, callback=None):
        self.tasks, self.single = tasks, single

    def get(self, timeout=None):
        v = [t.result() for t in self.tasks]
        return v[0] if self.single else v

    def wait(self, timeout=None):
        for t in self.tasks:
            while not t.finished:
                t.pool._step()

    def ready(self):
        return all(t.finished for t in self.tasks)

    def successful(self):
        return all(t.error is None for t in self.tasks)


class Workers:
    def _setup(self, n, initializer=None, initargs=()):
        self._n = n or 4
        self._running, self._queue = [], collections.deque()
        if initializer:
            initializer(*initargs)

    def _submit(self, f, a, k=None, **cb):
        t = Task(self, lambda a=pickle.loads(pickle.dumps(a)), k=dict(k or {}): f(*a, **k), **cb)
        self._queue.append(t)
        return t

    def _step(self):
        while self._queue and len(self._running) < self._n:
            self._running.append(self._queue.popleft())
        if not self._running:
            raise RuntimeError("waiting for a task that was never submitted")
        t = self._running.pop(CUR.choose(len(self._running)))
        t.finish()
        return t

    def _drain(self):
        while self._queue or self._running:
            self._step()


class Pool(Workers):
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        if processes is not None and processes < 1:
            raise ValueError("Number of processes must be at least 1")
        self._setup(processes, initializer, initargs)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()

    def close(self):
        pass

    def terminate(self):
        self._queue.clear()
        self._running.clear()

    def join(self):
        self._drain()

    def apply(self, f, args=(), kwds=None):
        return self._submit(f, args, kwds).result()

    def apply_async(self, f, args=(), kwds=None, callback=None, error_callback=None):
        return Result([self._submit(f, args, kwds, callback=callback, error_callback=error_callback)], True)

    def starmap_async(self, f, it, chunksize=None, callback=None, error_callback=None):
        r = Result([self._submit(f, tuple(a)) for a in it])
        if callback:
            r.wait()
            callback(r.get())
        return r

    def map_async(self, f, it, chunksize=None, callback=None, error_callback=None):
        return self.starmap_async(f, [(a,) for a in it], chunksize, callback, error_callback)

    def starmap(self, f, it, chunksize=None):
        return self.starmap_async(f, it).get()

    def map(self, f, it, chunksize=None):
        return self.map_async(f, it).get()

    def imap(self, f, it, chunksize=1):
        tasks = [self._submit(f, (a,)) for a in it]
        return iter(t.result() for t in tasks)

    def imap_unordered(self, f, it, chunksize=1):
        tasks = [self._submit(f, (a,)) for a in it]

        def gen():
            given = set()
            while len(given) < len(tasks):
                ready = [t for t in CUR.done_order if t in tasks and t not in given]
                if not ready:
                    self._step()
                    continue
                given.add(ready[0])
                yield ready[0].result()

        return gen()


class Future(cf.Future):
    def result(self, timeout=None):
        self.task.result() if self.task.error is None else None
        return super().result(0)


class Executor(Workers, cf.Executor):
    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), **k):
        self._setup(max_workers, initializer, initargs)

    def submit(self, f, /, *a, **k):
        fut = Future()
        fut.task = self._submit(f, a, k, callback=fut.set_result, error_callback=fut.set_exception)
        return fut

    def map(self, f, *its, timeout=None, chunksize=1, **kw):
        futs = [self.submit(f, *a) for a in zip(*its)]
        return iter(x.result() for x in futs)

    def shutdown(self, wait=True, **k):
        self._drain()


def as_completed(fs, timeout=None):
    fs = list(fs)
    given = set()
    while len(given) < len(fs):
        ready = [f for t in CUR.done_order for f in fs if f.task is t and f not in given]
        if not ready:
            next(f for f in fs if not f.task.finished).task.pool._step()
            continue
        given.add(ready[0])
        yield ready[0]


def wait(fs, timeout=None, return_when=cf.ALL_COMPLETED):
    fs = list(fs)
    while any(not f.task.finished for f in fs) and not (return_when != cf.ALL_COMPLETED and any(f.task.finished for f in fs)):
        next(f for f in fs if not f.task.finished).task.pool._step()
    return cf._base.DoneAndNotDoneFutures({f for f in fs if f.task.finished}, {f for f in fs if not f.task.finished})


@contextlib.contextmanager
def controlled():
    """Route every pool of the standard library to the scheduler."""
    saved = []

    def patch(obj, attr, val):
        saved.append((obj, attr, getattr(obj, attr)))
        setattr(obj, attr, val)

    patch(greatcirclepaths, "GreatCirclePath", Path)
    for o in (multiprocessing, multiprocessing.pool):
        patch(o, "Pool", Pool)
    patch(multiprocessing.pool, "ThreadPool", Pool)
    for c in ("fork", "spawn", "forkserver"):
        patch(multiprocessing.get_context(c), "Pool", Pool)
    for e in ("ProcessPoolExecutor", "ThreadPoolExecutor"):
        patch(cf, e, Executor)
    patch(cf, "as_completed", as_completed)
    patch(cf, "wait", wait)
    try:
        yield
    finally:
        for o, a, v in reversed(saved):
            setattr(o, a, v)


def load(name):
    path = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "experiments", "phasevel", "main.py")
    spec = importlib.util.spec_from_file_location(name, path)
    m = importlib.util.module_from_spec(spec)
    sys.modules[name] = m
    spec.loader.exec_module(m)
    return m


with controlled():
    MAIN = load("phasevel_main_scheduled")

# ---------------------------------------------------------------- cases

PAIRS = [((10.0, 20.0), (-50.0, 130.0)), ((80.0, -170.0), (75.0, 160.0)), ((-20.0, 5.0), (-21.0, 40.0)), ((0.0, 0.0), (45.0, 90.0)),
         ((60.0, 300.0), (-60.0, 200.0)), ((-85.0, 0.0), (-10.0, 10.0))]


def cases(tier):
    q = tier == "quick"
    out = []
    for n in range(1, 5 if q else 7):
        for w in list(range(1, n + 1)) + [16]:
            for L in (2, 3) if q else (2, 3, 4, 5):
                for rot in range(1 if n < 3 and q else 2):
                    out.append({"op": "matrix", "n": n, "workers": w, "L": L, "rot": rot})
    for n in (17, 40, 65, 100, 130, 257) if q else (17, 33, 40, 65, 100, 129, 130, 200, 257, 513, 1025):
        for w in (1, 3, 16, 64):
            out.append({"op": "long", "n": n, "workers": w, "L": 2})
    for first in range(20):
        out.append({"op": "shared", "first": first, "L": 40})
    out.append({"op": "defaults"})
    for w in (1, 2, 4) if q else (1, 2, 3, 4, 5, 6, 8, 16):
        out.append({"op": "real", "workers": w, "L": 3, "n": 4 if q else 6})
    for n in range(1, 5 if q else 6):
        for head in range(4):
            out.append({"op": "file", "n": n, "head": [head]})
    for n in (10, 100, 1000, 12000):
        out.append({"op": "file", "n": n, "head": [(i * i + i // 3) % 4 for i in range(n)]})
        out.append({"op": "file", "n": n, "head": [1] * n})
        out.append({"op": "file", "n": n, "head": [1] * (n - 1) + [3]})
    return out


_rows = {}


def row(start, stop, L):
    if (start, stop, L) not in _rows:
        p = _GCP(np.array(start), np.array(stop), "MW", L=L, weighting="average", latlon=True)
        p.get_points(points_per_rad=160)
        p.fill()
        _rows[start, stop, L] = np.asarray(p.map)
    return _rows[start, stop, L]


def check(P, pairs, L, fail):
    want = np.array([row(a, b, L) for a, b in pairs])
    if not sparse.issparse(P):
        fail(f"a {type(P).__name__} was returned, not a sparse matrix")
    got = P.toarray()
    if got.shape != want.shape:
        fail(f"shape {got.shape}, expected {want.shape}")
    for i in range(len(pairs)):
        if not np.allclose(got[i], want[i], rtol=1e-12, atol=1e-14):
            j = [k for k in range(len(pairs)) if np.allclose(got[i], want[k])]
            fail(f"row {i} is not the path of pair {i}" + (f" but of pair {j[0]}" if j else ""))


def run_case(case, rec):
    globals()["_" + case["op"]](case, rec)


def _matrix(case, rec):
    global CUR
    n, L = case["n"], case["L"]
    pairs = PAIRS[:n] if not case["rot"] else PAIRS[:n][::-1]
    prefix = list(case.get("schedule", []))
    orders = set()
    while True:
        CUR = s = Sched(prefix)
        a, b = np.array([p[0] for p in pairs]), np.array([p[1] for p in pairs])

        def fail(m):
            raise Violation(f"get_path_matrix of {n} paths, L={L}, {case['workers']} workers, scheduler choices {s.path}: {m}", dict(case, schedule=s.path))

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                with controlled():
                    P = MAIN.get_path_matrix(a, b, L, case["workers"])
            except Exception as e:
                fail(f"raised {type(e).__name__}: {e}")
        check(P, pairs, L, fail)
        if not (np.array_equal(a, [p[0] for p in pairs]) and np.array_equal(b, [p[1] for p in pairs])):
            fail("the coordinates were changed")
        rec.step(len(s.path))
        rec.trace()
        rec.state("matrix", n, case["workers"], L, case["rot"], tuple(s.path))
        orders.add(tuple(s.path))
        if "schedule" in case:
            break
        path, widths = s.path, s.widths
        while path and path[-1] == widths[-1] - 1:
            path, widths = path[:-1], widths[:-1]
        if not path:
            break
        prefix = path[:-1] + [path[-1] + 1]
    rec.extra["schedules"] += len(orders)
    rec.outcome("matrix", n, L, case["rot"], case["workers"])
    rec.sample({"paths": n, "workers": case["workers"], "schedules": len(orders)})


# which running task completes next, in lists too long for all orders
POLICIES = {"oldest": lambda i, n: 0, "newest": lambda i, n: n - 1, "middle": lambda i, n: n // 2, "alternating": lambda i, n: 0 if i % 2 else n - 1,
            "scattered": lambda i, n: (7 * i * i + 3 * i) % n, "late first": lambda i, n: n - 1 if i < 3 else 0}


def _long(case, rec):
    global CUR
    n, L = case["n"], case["L"]
    pairs = [(((37 * i) % 160 - 80 + 0.25, (71 * i) % 360 - 180.0), ((53 * i + 40) % 160 - 79.5, (97 * i + 100) % 360 - 180.0)) for i in range(n)]
    for name, policy in POLICIES.items():
        CUR = s = Sched(policy=policy)

        def fail(m):
            raise Violation(f"get_path_matrix of {n} paths, L={L}, {case['workers']} workers, the {name} running task completes next: {m}", case)

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                with controlled():
                    P = MAIN.get_path_matrix(np.array([p[0] for p in pairs]), np.array([p[1] for p in pairs]), L, case["workers"])
            except Exception as e:
                fail(f"raised {type(e).__name__}: {e}")
        check(P, pairs, L, fail)
        rec.step(len(s.path))
        rec.trace()
        rec.state("long", n, case["workers"], name)
    rec.outcome("long", n)


POINTS = [(10.0, 20.0), (10.03, 20.02), (-50.0, 130.0), (10.0, 130.0), (-50.0, 20.0)]


def _shared(case, rec):
    """Paths that share an end, run the other way, repeat, or have nearly the same ends."""
    global CUR
    every = list(itertools.permutations(POINTS, 2))
    for second in every:
        pairs = [every[case["first"]], second, every[case["first"]]]
        for policy in ("oldest", "newest"):
            CUR = s = Sched(policy=POLICIES[policy])

            def fail(m):
                raise Violation(f"get_path_matrix of {pairs}, L={case['L']}, 2 workers, the {policy} running task completes next: {m}", case)

            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    with controlled():
                        P = MAIN.get_path_matrix(np.array([p[0] for p in pairs]), np.array([p[1] for p in pairs]), case["L"], 2)
                except Exception as e:
                    fail(f"raised {type(e).__name__}: {e}")
            check(P, pairs, case["L"], fail)
            rec.step(len(s.path))
            rec.trace()
            rec.state("shared", case["first"], second, policy)
    rec.outcome("shared", case["first"])


def _defaults(case, rec):
    """Default arguments: bandlimit 32."""
    global CUR
    CUR = Sched()
    pairs = PAIRS[:2]

    def fail(m):
        raise Violation(f"get_path_matrix with default arguments: {m}", case)

    with controlled():
        P = MAIN.get_path_matrix(np.array([p[0] for p in pairs]), np.array([p[1] for p in pairs]))
    check(P, pairs, 32, fail)
    odd = [((89.1234 * math.sin(1 + 3 * i), 179.9876 * math.cos(2 + 5 * i)), (88.4321 * math.cos(3 * i), 178.0123 * math.sin(7 * i))) for i in range(24)]
    for a, b in PAIRS + odd:
        for L in (2, 3, 5) if (a, b) in PAIRS else (16, 40):
            got = np.asarray(MAIN.build_path(np.array(a), np.array(b), L))
            if not np.allclose(got, row(a, b, L), rtol=1e-12):
                raise Violation(f"build_path({a}, {b}, {L}) is not the great circle between the points", case)
            rec.step()
            rec.outcome("path", got.tobytes())
    rec.trace()
    rec.state("defaults")


def _real(case, rec):
    m = load("phasevel_main_real")
    pairs = PAIRS[: case["n"]]

    def fail(msg):
        raise Violation(f"get_path_matrix of {case['n']} paths on the real pool with {case['workers']} workers: {msg}", case)

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        P = m.get_path_matrix(np.array([p[0] for p in pairs]), np.array([p[1] for p in pairs]), L=case["L"], processes=case["workers"])
    check(P, pairs, case["L"], fail)
    rec.step()
    rec.trace()
    rec.extra["real_pool_runs"] += 1
    rec.state("real", case["workers"])


ERRS = [0.5, -0.25, 0.0, -2.0]


def write(path, n, rows):
    with open(path, "w") as f:
        f.write("# comment\n" if n % 2 else "")
        for i, r in enumerate(rows):
            f.write(" ".join(repr(x) for x in r) + ("  # path" if i == 1 else "") + "\n")
            if i == 1:
                f.write("\n")


def _file(case, rec):
    n = case["n"]
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "data.txt")
        for tail in itertools.product(range(4), repeat=n - len(case["head"])):
            seq = case["head"] + list(tail)
            rows = [[10.0 * i + 1, -20.0 * i + 2, -3.0 * i - 4, 100.0 - i, (-1) ** i * (0.125 + i), ERRS[e], i % 2 + 1, 3 + i] for i, e in enumerate(seq)]
            write(path, n, rows)

            def fail(m):
                raise Violation(f"read_datafile of {n} rows with errors {[r[5] for r in rows[:12]]}: {m[:300]}", dict(case, head=seq))

            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                try:
                    out = MAIN.read_datafile(path)
                except Exception as e:
                    fail(f"raised {type(e).__name__}: {e}")
            r = np.array(rows)
            want = [r[:, :2], r[:, 2:4], r[:, 4], np.abs(r[:, 5]), r[:, 6], r[:, 7]]
            names = ["start", "stop", "data", "errors", "minor/major", "similar paths"]
            if len(out) != 6:
                fail(f"{len(out)} values returned")
            for nm, g, w in zip(names, out, want):
                g = np.asarray(g)
                if g.shape != w.shape or not np.array_equal(g, w):
                    fail(f"{nm} = {g.tolist()}, the file holds {w.tolist()}")
            neg = any(ERRS[e] < 0 for e in seq)
            said = {str(w.message) for w in ws}
            if neg:
                # a warning that the same file without negative errors does not give
                write(path, n, [r[:5] + [abs(r[5])] + r[6:] for r in rows])
                with warnings.catch_warnings(record=True) as ws:
                    warnings.simplefilter("always")
                    MAIN.read_datafile(path)
                if not said - {str(w.message) for w in ws}:
                    fail("no warning about negative errors")
            rec.step()
            rec.trace()
            rec.state("file", tuple(seq))
            rec.outcome("file", tuple(seq))
    rec.sample({"file rows": n, "errors": [ERRS[e] for e in seq]})
