"""C23: a saved file holds exactly the run it was saved from.

Operation histories on a scratch directory: saves of different runs under the same and other names, with every
subset of tracked quantities, and with an item that cannot be stored at every position.
"""
import itertools
import os
import shutil
import tempfile

import h5py
import numpy as np

from mc import rng, sampler as S
from mc.core import Violation
from pxmcmc.saving import save_mcmc

PROPERTY = "C23"
LEVEL = "model_checking"
ASSUMES = ["the file system and HDF5 library work; crashes of the operating system are not modelled"]
RULE = ("every subset of tracked quantities x sampler x problem for a single save; every history of up to three saves over {run 0, run 1, run 2, failing save} x {name a, name b}; an unstorable "
        "item at every position. After every operation the whole directory is read back and compared bit for bit")
BOUNDS = {"quick": "32 subsets x 4 samplers x (2 problems, and 2 with up to 30 parameters, 400 samples); 2500 samples; thousands of parameters; all 8^3 histories of three saves; failures at each of 7 arrays and 12 attributes and 3 keywords",
          "thorough": "32 subsets x 4 samplers x (5 problems x 3 sizes, and 2 with up to 30 parameters, 400 samples); 2500 samples; thousands of parameters; all 8^4 histories of four saves; failures as quick for every sampler"}
DSET = {"logposterior": "logPi", "predictions": "preds", "chain": "chain", "L2s": "L2s", "priors": "priors", "acceptances": "acceptance_trace", "deltas": "deltas_trace"}
ALGOS = ["myula", "skrock", "pxmala", "pxmala-tune"]
NAMES = ["logposterior", "L2", "prior", "predictions", "chain"]
OPS = ["0a", "1a", "2a", "Fa", "0b", "1b", "2b", "Fb"]


def cases(tier):
    q = tier == "quick"
    out = []
    for algo in ALGOS:
        for prob in ("real2", "cplx2") if q else ("real2", "cplx2", "one", "realcplx", "cplxreal"):
            for ns in (3,) if q else (1, 3, 40):
                out.append({"kind": "subsets", "algo": algo, "prob": prob, "ns": ns})
        for prob in ("wide", "widec"):
            out.append({"kind": "subsets", "algo": algo, "prob": prob, "ns": 400})
        out.insert(0, {"kind": "subsets", "algo": algo, "prob": "real2", "ns": 2500, "few": True})
        out.insert(0, {"kind": "subsets", "algo": algo, "prob": "huge", "ns": 8, "few": True})
        out.insert(0, {"kind": "subsets", "algo": algo, "prob": "hugec", "ns": 8, "few": True})
        out.append({"kind": "faults", "algo": algo})
    for first in OPS:
        for second in OPS:
            out.append({"kind": "history", "prefix": [first, second], "depth": 3 if q else 4})
    out.append({"kind": "attrs"})
    return out


def make(algo, prob, ns, track, seed=0):
    p = S.PROBS[prob]
    par = S.PxMCMCParams(lmda=0.4, delta=0.15, s=2, mu=1.3, nsamples=ns, nburn=1, ngap=2, complex=p.cplx, verbosity=0, track=list(track))
    f, pr = S.HForward(p), S.HPrior(p)
    if algo.startswith("pxmala"):
        m = S.PxMALA(f, pr, par, tune_delta=algo.endswith("tune"))
    else:
        m = S.CLS[algo](f, pr, par)
    sc = rng.Script(endless={"g": lambda i: 1.2 * np.sin(1 + 1.7 * i + seed), "u": lambda i: [0.3, 0.9, 1e-9, 0.6][(i + seed) % 4]})
    with rng.scripted(sc):
        m.run(np.array(p.start))
    return m, par


def arrays_of(m):
    d = {}
    for name, attr in DSET.items():
        if getattr(m, attr, None) is not None:
            d[name] = np.array(getattr(m, attr))
    return d


def check_file(label, path, arrays, params, extra):
    if not os.path.exists(path):
        raise Violation(f"{label}: {os.path.basename(path)} does not exist after saving")
    with h5py.File(path, "r") as f:
        if sorted(f.keys()) != sorted(arrays):
            raise Violation(f"{label}: datasets {sorted(f.keys())}, expected {sorted(arrays)}")
        for k, a in arrays.items():
            got = f[k][()]
            if got.shape != a.shape:
                raise Violation(f"{label}: dataset {k} has shape {got.shape}, the array {a.shape}")
            if k == "acceptances":
                if got.dtype.kind not in "iub" or not np.array_equal(got, a):
                    raise Violation(f"{label}: acceptances {got!r}, expected {a!r}")
            elif got.dtype != a.dtype or got.tobytes() != np.ascontiguousarray(a).tobytes():
                raise Violation(f"{label}: dataset {k} ({got.dtype}) differs from the array ({a.dtype})")
        want = dict(params)
        want.update(extra)
        if sorted(f.attrs.keys()) != sorted(want):
            raise Violation(f"{label}: attributes {sorted(f.attrs.keys())}, expected {sorted(want)}")
        for k, v in want.items():
            got = f.attrs[k]
            if isinstance(v, (list, tuple, np.ndarray)):
                same = np.shape(got) == np.shape(v) and [x.decode() if isinstance(x, bytes) else x for x in np.ravel(got).tolist()] == np.ravel(np.array(v)).tolist()
            else:
                same = got == v and isinstance(got, str) == isinstance(v, str)
            if not same:
                raise Violation(f"{label}: attribute {k} is {got!r}, expected {v!r}")


def run_case(case, rec):
    tmp = tempfile.mkdtemp(prefix="verif-c23-")
    try:
        {"subsets": subsets, "faults": faults, "history": history, "attrs": attrs}[case["kind"]](case, rec, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    rec.sample(case)


def subsets(case, rec, tmp):
    for r in range(6) if not case.get("few") else (5,):
        for track in itertools.combinations(NAMES, r):
            m, par = make(case["algo"], case["prob"], case["ns"], track)
            arrays = arrays_of(m)
            before = {k: v.copy() for k, v in arrays.items()}
            pb = dict(par.__dict__)
            extra = {"L": 10, "B": 1.5, "setting": "synthesis"}
            d = os.path.join(tmp, "x".join(track) or "none")
            os.mkdir(d)
            ret_name = f"{case['algo']} on '{case['prob']}' tracking {list(track)}"
            save_mcmc(m, par, d, filename="run", **extra)
            check_file(ret_name, os.path.join(d, "run.hdf5"), arrays, par.__dict__, extra)
            if os.listdir(d) != ["run.hdf5"]:
                raise Violation(f"{ret_name}: saving left {os.listdir(d)}")
            for k, a in arrays_of(m).items():
                if a.tobytes() != before[k].tobytes():
                    raise Violation(f"{ret_name}: saving changed {k}")
            if par.__dict__ != pb:
                raise Violation(f"{ret_name}: saving changed the parameters")
            save_mcmc(m, par, d)  # default name
            check_file(ret_name + " (default name)", os.path.join(d, "outputs.hdf5"), arrays, par.__dict__, {})
            if sorted(os.listdir(d)) != ["outputs.hdf5", "run.hdf5"]:
                raise Violation(f"{ret_name}: saving left {os.listdir(d)}")
            rec.trace(2)
            rec.step(2)
            rec.state(case["algo"], case["prob"], case["ns"], track)
            rec.outcome(tuple(sorted(arrays)), tuple(a.tobytes() for a in arrays.values()))


class Unstorable:
    pass


def faults(case, rec, tmp):
    """One item cannot be stored: the call raises; every array written before it is intact."""
    algo = case["algo"]
    m0, par0 = make(algo, "real2", 3, NAMES)
    arrays = arrays_of(m0)
    for where in list(arrays) + ["@" + a for a in par0.__dict__] + ["#0", "#1", "#2"]:
        for old in (False, True):
            m, par = make(algo, "real2", 3, NAMES)
            extra = {"k0": 1, "k1": "two", "k2": 3.0}
            if where[0] == "@":
                setattr(par, where[1:], Unstorable())
            elif where[0] == "#":
                extra["k" + where[1]] = Unstorable()
            else:
                setattr(m, DSET[where], np.array([Unstorable(), Unstorable()], dtype=object))
            d = tempfile.mkdtemp(dir=tmp)
            other = os.path.join(d, "other.hdf5")
            with open(other, "wb") as f:
                f.write(b"other")
            if old:
                mo, po = make(algo, "one", 5, ["chain"], seed=3)
                save_mcmc(mo, po, d, filename="run", stale=1)
            label = f"{algo}: item {where} cannot be stored{', over an existing file' if old else ''}"
            try:
                save_mcmc(m, par, d, filename="run", **extra)
            except Exception:
                pass
            else:
                raise Violation(f"{label}: the call does not raise")
            path = os.path.join(d, "run.hdf5")
            try:
                with h5py.File(path, "r") as f:
                    keys = list(f.keys())
                    for k in keys:
                        if k not in arrays or f[k][()].tobytes() != np.ascontiguousarray(arrays[k]).tobytes() and k != "acceptances" and k != where:
                            raise Violation(f"{label}: dataset {k} is not the run's")
                    if where[0] in "@#" and sorted(keys) != sorted(arrays):
                        raise Violation(f"{label}: arrays {sorted(set(arrays) - set(keys))} are missing although only an attribute failed")
                    if "stale" in f.attrs:
                        raise Violation(f"{label}: attributes of the earlier file remain")
            except OSError as e:
                raise Violation(f"{label}: the file cannot be read: {e}")
            with open(other, "rb") as f:
                if f.read() != b"other":
                    raise Violation(f"{label}: another file was touched")
            # saving again over the broken file repairs it
            save_mcmc(m0, par0, d, filename="run", ok=1)
            check_file(label + ", then saved again", path, arrays, par0.__dict__, {"ok": 1})
            rec.trace()
            rec.step(2)
            rec.state(algo, where, old)
            rec.outcome(where, tuple(sorted(keys)))


_runs = {}


def get_runs():
    if not _runs:
        _runs["0"] = make("pxmala-tune", "real2", 3, NAMES) + ({"a": 1, "note": "zero"},)
        _runs["1"] = make("myula", "cplx2", 2, ["chain", "L2"], 1) + ({"b": 2.5},)
        _runs["2"] = make("skrock", "one", 4, [], 2) + ({},)
    return _runs


def history(case, rec, tmp):
    runs = get_runs()
    for rest in itertools.product(OPS, repeat=case["depth"] - 2):
        seq = tuple(case["prefix"]) + rest
        d = tempfile.mkdtemp(dir=tmp)
        bystander = os.path.join(d, "c.hdf5")
        with open(bystander, "wb") as f:
            f.write(b"precious")
        content = {}
        for t, op in enumerate(seq):
            label = f"saves {' '.join(seq)}, after step {t}"
            name = op[1]
            if op[0] == "F":
                m, par, _ = runs["1"]
                try:
                    save_mcmc(m, par, d, filename=name, bad=Unstorable())
                except Exception:
                    content.pop(name, None)
                else:
                    raise Violation(f"{label}: unstorable keyword accepted")
            else:
                m, par, extra = runs[op[0]]
                save_mcmc(m, par, d, filename=name, **extra)
                content[name] = op[0]
            for nm, r in content.items():
                check_file(f"{label}, file {nm}", os.path.join(d, nm + ".hdf5"), arrays_of(runs[r][0]), runs[r][1].__dict__, runs[r][2])
            extra_files = set(os.listdir(d)) - {"a.hdf5", "b.hdf5", "c.hdf5"}
            if extra_files:
                raise Violation(f"{label}: unexpected files {extra_files}")
            with open(bystander, "rb") as f:
                if f.read() != b"precious":
                    raise Violation(f"{label}: another file was touched")
            rec.step()
            rec.state(seq[: t + 1])
        rec.trace()
        rec.outcome(tuple(sorted(content.items())))
        shutil.rmtree(d)


def attrs(case, rec, tmp):
    """Values of many kinds survive as attributes; names with dots and subdirectories go where they should."""
    m, par = make("myula", "real2", 2, ["chain"])
    vals = {"i": 3, "f": 0.25, "neg": -1.5, "s": "text", "empty": "", "t": True, "fl": False, "lst": [1, 2, 3], "arr": np.arange(4.0), "z": 2 + 3j, "strs": ["a", "bc"], "big": 10 ** 12,
            "zero": 0, "tiny": 1e-300, "unicode": "λδμ",
            "wide": np.arange(20000) * 0.5, "map": np.arange(66.0 * 131).reshape(66, 131), "long": "text " * 20000}
    sub = os.path.join(tmp, "sub.dir")
    os.mkdir(sub)
    for name in ("run", "run.1", "a b", "x.hdf5", "0"):
        for k in [None] + list(vals):
            extra = dict(vals) if k is None else {k: vals[k]}
            save_mcmc(m, par, sub, filename=name, **extra)
            check_file(f"extra keywords {sorted(extra)} in {name}", os.path.join(sub, name + ".hdf5"), arrays_of(m), par.__dict__, extra)
            rec.trace()
            rec.step()
            rec.state("attrs", name, k)
            rec.outcome("attrs", k)
    for kw in (dict(lmda=1e-9, delta=5, mu=0, nsamples=2, s=7), dict(complex=False, nsamples=2, verbosity=3, track=["chain", "prior"]), dict(nsamples=2, nburn=0, ngap=0, track=[])):
        p2 = S.PxMCMCParams(**kw)
        save_mcmc(m, p2, tmp, filename="p")
        check_file(f"parameters {kw}", os.path.join(tmp, "p.hdf5"), arrays_of(m), p2.__dict__, {})
    # an extra keyword of the same name as a run parameter is the later one
    save_mcmc(m, par, tmp, filename="q", extra_mu=9)
    check_file("extra keyword", os.path.join(tmp, "q.hdf5"), arrays_of(m), par.__dict__, {"extra_mu": 9})
