"""Explorer harness: enumerate cases, run them on the real code in parallel, report.

A check module defines
    PROPERTY   the property id
    LEVEL      verification level
    ASSUMES    list of assumptions
    BOUNDS     {tier: text describing the bounds}
    cases(tier)          the complete finite list of cases (JSON values, simplest first)
    run_case(case, rec)  runs one case against the real code; raises Violation
"""
import collections
import hashlib
import json
import os
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    def __init__(self, msg, case=None):
        super().__init__(msg)
        self.case = case


def digest(obj):
    if not isinstance(obj, bytes):
        obj = repr(obj).encode()
    return int.from_bytes(hashlib.blake2b(obj, digest_size=8).digest(), "big")


class Recorder:
    """Measured coverage of one worker."""

    def __init__(self):
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = collections.Counter()

    def state(self, *key):
        self.states.add(digest(key))

    def outcome(self, *key):
        self.outcomes.add(digest(key))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(obj)

    def merge(self, o):
        self.states |= o.states
        self.outcomes |= o.outcomes
        self.transitions += o.transitions
        self.traces += o.traces
        self.samples = (self.samples + o.samples)[:6]
        self.extra.update(o.extra)


class Hang(Violation):
    pass


def _alarm(signum, frame):
    raise Hang("the code under test did not finish in the time allowed for one case")


CASE_SECONDS = {"quick": 150, "thorough": 900}


def _safe_run(mod, case, rec, tier):
    """Run one case; return None or a violation description."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_SECONDS[tier])
    try:
        mod.run_case(case, rec)
        return None
    except Violation as v:
        return {"msg": str(v), "case": v.case if v.case is not None else case}
    except AssertionError as e:
        return {"msg": "assertion: " + str(e) + "\n" + traceback.format_exc(limit=-3), "case": case}
    except Exception as e:
        return {
            "msg": f"unexpected {type(e).__name__}: {e}\n" + traceback.format_exc(limit=-4),
            "case": case,
        }
    finally:
        signal.alarm(0)


_CHUNKS = None
_MOD = None
_TIER = None


def _worker(idx):
    rec = Recorder()
    viol = []
    for k, case in _CHUNKS[idx]:
        v = _safe_run(_MOD, case, rec, _TIER)
        if v is not None:
            v["order"] = k
            viol.append(v)
            if len(viol) >= 3:
                break
    return rec, viol


def explore(mod, tier, procs=None):
    global _CHUNKS, _MOD, _TIER
    t0 = time.time()
    cases = list(enumerate(mod.cases(tier)))
    procs = procs or int(os.environ.get("VERIF_PROCS", "0")) or min(8, os.cpu_count() or 1)
    total = Recorder()
    viol = []
    nchunks = min(len(cases), procs * getattr(mod, "CHUNKS_PER_PROC", 8)) or 1
    _MOD, _TIER = mod, tier
    _CHUNKS = [cases[i::nchunks] for i in range(nchunks)]
    done = 0
    if procs == 1 or len(cases) == 1:
        for i in range(nchunks):
            r, v = _worker(i)
            total.merge(r)
            viol += v
            done += 1
    else:
        import multiprocessing as mp
        from concurrent.futures import ProcessPoolExecutor, as_completed
        from concurrent.futures.process import BrokenProcessPool

        ctx = mp.get_context("fork")
        with ProcessPoolExecutor(procs, mp_context=ctx) as ex:
            futs = {ex.submit(_worker, i): i for i in range(nchunks)}
            for f in as_completed(futs):
                try:
                    r, v = f.result()
                except BrokenProcessPool:
                    viol.append(
                        {
                            "msg": "the interpreter died while running the code under test",
                            "case": _CHUNKS[futs[f]][0][1],
                            "order": 10 ** 9,
                        }
                    )
                    break
                total.merge(r)
                viol += v
                done += 1
                if len(viol) >= 5:
                    for g in futs:
                        g.cancel()
                    break
    viol.sort(key=lambda v: v["order"])
    return {
        "cases": len(cases),
        "complete": done == nchunks and not viol,
        "rec": total,
        "violations": viol,
        "wall": time.time() - t0,
    }


def load_known(prop):
    path = os.path.join(ROOT, "known_findings.json")
    try:
        with open(path) as f:
            return [k for k in json.load(f)["known"] if k["property"] == prop]
    except FileNotFoundError:
        return []


def write_evidence(mod, tier, res):
    rec = res["rec"]
    ev = {
        "property": mod.PROPERTY,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
        "level": mod.LEVEL,
        "coverage": {
            "states": len(rec.states),
            "transitions": rec.transitions,
            "traces_validated_against_impl": rec.traces,
            "cases_enumerated": res["cases"],
            "distinct_outcomes": len(rec.outcomes),
            "exhaustive": bool(res["complete"]),
            "bounds": mod.BOUNDS[tier],
            "rule": mod.RULE,
            "samples": rec.samples[:6],
            **{k: int(v) for k, v in sorted(rec.extra.items())},
        },
        "assumptions": list(mod.ASSUMES),
        "wall_s": round(res["wall"], 2),
        "violations": len(res["violations"]),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    path = os.path.join(ROOT, "evidence", mod.PROPERTY + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(path + ".tmp", path)
    return ev


def jsonable(x):
    return json.loads(json.dumps(x, default=lambda o: o.tolist() if hasattr(o, "tolist") else str(o)))
