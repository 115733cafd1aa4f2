"""C08: tracking and printing never change the chain (differential over all choices)."""
import itertools

import numpy as np

from mc import sampler as S
from mc.core import Violation
from checks.c07 import histories, subsets

PROPERTY = "C08"
LEVEL = "model_checking"
ASSUMES = ["operators and priors are user-defined test doubles with documented interfaces"]
RULE = ("every subset of tracked quantities x verbosity, on the same scripted draws (every feasible accept/reject history for PxMALA): tracked arrays, "
        "traces, final step size and draws consumed must coincide with the run that tracks everything silently")
BOUNDS = {"quick": "32 subsets x verbosity {0,1,2,3,7,100} x 3 samplers x 3 problems x 3 schedules; PxMALA histories of <= 3 iterations, tuning on and off; runs of 1500 samples with 3 subsets and verbosity {0,100}",
          "thorough": "32 subsets x verbosity {0,1,2,3,4,5,7,100,-1} x 3 samplers x 9 problems x 6 schedules; PxMALA histories of <= 6 iterations, tuning on and off; runs of 1500 samples with 3 subsets and verbosity {0,100}"}
SCHED = [(3, 0, 1), (2, 2, 2), (2, 3, 0), (1, 0, 0), (4, 5, 3), (0, 2, 1)]


def cases(tier):
    q = tier == "quick"
    out = []
    for prob in ("real2", "cplx2", "realcplx") if q else S.PROBS:
        for algo in ("myula", "skrock", "pxmala"):
            for sched in SCHED[: 3 if q else 6]:
                for tune in (False,) if algo != "pxmala" else (False, True):
                    out.append({"prob": prob, "algo": algo, "sched": sched, "tune": tune, "full": 3 if q else 6,
                                "verb": [0, 1, 2, 3, 7, 100] if q else [0, 1, 2, 3, 4, 5, 7, 100, -1]})
    for algo in ("myula", "skrock", "pxmala"):
        for sched in ((1500, 3, 1), (20, 1200, 30)):
            out.append({"prob": "real2", "algo": algo, "sched": sched, "tune": algo == "pxmala", "full": 0, "verb": [0, 100], "few": True})
    return out


def run_case(case, rec):
    prob, algo = S.PROBS[case["prob"]], case["algo"]
    ns, nb, gap = case["sched"]
    base = dict(nsamples=ns, nburn=nb, ngap=gap, tune=case["tune"], s=2)
    n = S.n_iter(S.Cfg(base))
    for path in histories(algo, prob, S.Cfg(base), n, case["full"]):
        script = dict(g=path.g, u=path.u)
        ref = S.build(algo, prob, S.Cfg(base))
        sc0 = S.rng.Script(**script, endless={"g": lambda i: 0.1, "u": lambda i: 0.5})
        with S.rng.scripted(sc0):
            ref.run(np.array(prob.start))
        for track in subsets() if not case.get("few") else [(), ("chain",), tuple(S.Cfg.DEF["track"])]:
            for verb in case["verb"]:
                cfg = S.Cfg(base, track=track, verbosity=verb)
                label = f"{algo} on '{prob.name}' tracking {list(track)} with verbosity {verb} (nsamples={ns} nburn={nb} ngap={gap} tune={case['tune']} history={[int(a) for a in path.acc]})"
                sc = S.rng.Script(**script, endless={"g": lambda i: 0.1, "u": lambda i: 0.5})
                try:
                    m = S.build(algo, prob, cfg)
                    with S.rng.scripted(sc):
                        m.run(np.array(prob.start))
                except Exception as e:
                    raise Violation(f"{label}: the run fails with {type(e).__name__}: {e}")
                if sc.used != sc0.used:
                    raise Violation(f"{label}: consumes draws {sc.used}, the silent run {sc0.used}")
                for name in track:
                    a, b = getattr(m, S.ATTR[name], None), getattr(ref, S.ATTR[name])
                    if a is None or not S.close(a, b, 1e-10):
                        raise Violation(f"{label}: {name} is {a!r}, in the silent run that tracks everything it is {b!r}")
                if algo == "pxmala":
                    if [int(x) for x in m.acceptance_trace] != [int(x) for x in ref.acceptance_trace]:
                        raise Violation(f"{label}: acceptance trace {m.acceptance_trace}, silent run {ref.acceptance_trace}")
                    if not S.close(m.deltas_trace, ref.deltas_trace, 1e-12):
                        raise Violation(f"{label}: step sizes {m.deltas_trace}, silent run {ref.deltas_trace}")
                if not S.close(m.delta, ref.delta, 1e-12):
                    raise Violation(f"{label}: final step size {m.delta}, silent run {ref.delta}")
                rec.trace()
                rec.step(n)
                rec.state(algo, prob.name, case["sched"], track, verb, tuple(path.acc), case["tune"])
        rec.outcome(algo, prob.name, np.round(ref.chain, 9).tobytes())
    rec.sample({"algo": algo, "problem": prob.name, "schedule": case["sched"], "verbosities": case["verb"]})
