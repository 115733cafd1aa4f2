"""C07: saved diagnostics belong to the saved samples."""
import itertools

import numpy as np

from mc import sampler as S
from mc.core import Violation

PROPERTY = "C07"
LEVEL = "model_checking"
ASSUMES = ["operators and priors are user-defined test doubles with documented interfaces"]
RULE = ("every subset of tracked quantities x sampler x problem x schedule (x every feasible accept/reject history for PxMALA): each saved row is "
        "recomputed from the saved sample with an independent model of misfit, prior, log posterior and predictions")
BOUNDS = {"quick": "32 subsets x 3 samplers x 11 problems x 4 schedules x verbosity {0,1}; all feasible PxMALA histories of <= 4 iterations, tuning on and off; 3 problems with up to 30 parameters or log posteriors of -1e6; runs of 150 and 2000 samples; no information in the data or in the prior, starts at zero; 2 problems with 2200 real and 900 complex parameters, 700 and 500 data",
          "thorough": "32 subsets x 3 samplers x 11 problems x 9 schedules x 2 mu; all feasible PxMALA histories of <= 8 iterations, tuning on and off; 3 large problems; runs of 150 and 2000 samples; no information in the data or in the prior, starts at zero; 2 problems with 2200 real and 900 complex parameters, 700 and 500 data"}
NAMES = ["logposterior", "L2", "prior", "predictions", "chain"]
SCHED = [(4, 0, 1), (2, 1, 2), (1, 3, 0), (0, 0, 1), (3, 2, 1), (2, 0, 3), (5, 1, 0), (1, 0, 0), (3, 1, 2)]


def cases(tier):
    q = tier == "quick"
    out = []
    for prob in S.PROBS:
        for algo in ("myula", "skrock", "pxmala"):
            for sched in SCHED[: 4 if q else 9]:
                for mu in (1.3,) if q and sched != SCHED[0] else (1.3, 0.0):
                    for tune in (False,) if algo != "pxmala" else (False, True):
                        out.append({"prob": prob, "algo": algo, "sched": sched, "mu": mu, "tune": tune, "full": 4 if q else 8})
    for prob in S.DULL:
        for algo in ("myula", "skrock", "pxmala"):
            out.append({"prob": prob, "algo": algo, "sched": (4, 1, 1), "mu": 1.3, "tune": False, "full": 0})
    for prob in S.BIG:
        for algo in ("myula", "skrock", "pxmala"):
            out.append({"prob": prob, "algo": algo, "sched": (6, 1, 2), "mu": 1.3, "tune": False, "full": 0})
    for algo in ("myula", "skrock", "pxmala"):
        out.append({"prob": "real2", "algo": algo, "sched": (150, 7, 2), "mu": 1.3, "tune": algo == "pxmala", "full": 0})
        out.append({"prob": "real2", "algo": algo, "sched": (2000, 3, 1), "mu": 1.3, "tune": False, "full": 0, "few": True})
    for prob in S.HUGE:
        for algo in ("myula", "skrock", "pxmala"):
            out.append({"prob": prob, "algo": algo, "sched": (3, 1, 2), "mu": 1.3, "tune": False, "full": 0, "few": True, "delta": 1e-3})
    return out


def subsets():
    for r in range(len(NAMES) + 1):
        yield from itertools.combinations(NAMES, r)


def histories(algo, prob, cfg, n, full):
    if algo != "pxmala":
        yield S.script_for(algo, prob, cfg, n)
        return
    hists = itertools.product((True, False), repeat=n) if n <= full else (
        [i % k != r for i in range(n)] for k, r in ((9, 9), (2, 0), (2, 1), (3, 0), (3, 1)))
    seen = set()
    for h in hists:
        p = S.script_for(algo, prob, cfg, n, list(h), bend=n > full)
        if p is not None and tuple(p.acc) not in seen:
            seen.add(tuple(p.acc))
            yield p


def run_case(case, rec):
    prob, algo = S.PROBS[case["prob"]], case["algo"]
    ns, nb, gap = case["sched"]
    base = dict(nsamples=ns, nburn=nb, ngap=gap, mu=case["mu"], tune=case["tune"], s=2, delta=case.get("delta", 0.15))
    n = S.n_iter(S.Cfg(base))
    for k, path in enumerate(histories(algo, prob, S.Cfg(base), n, case["full"])):
        ref = S.observe(algo, prob, S.Cfg(base, track=("chain",)), path.g, path.u)
        X = np.array(ref.chain)
        preds = [prob.forward(x) for x in X]
        want = {
            "chain": X,
            "predictions": np.array(preds).reshape(ns, prob.nd),
            "L2": np.array([prob.L2(y) for y in preds]),
            "prior": np.array([prob.prior(x) for x in X]),
            "logposterior": np.array([S.logpost(prob, S.Cfg(base), x) for x in X]),
        }
        for track in subsets() if not case.get("few") else [(n_,) for n_ in NAMES] + [tuple(NAMES)]:
            for verb in ((0, 1) if k == 0 else (0,)):
                cfg = S.Cfg(base, track=track, verbosity=verb)
                m = S.observe(algo, prob, cfg, path.g, path.u)
                label = f"{algo} on '{prob.name}' tracking {list(track)} (nsamples={ns} nburn={nb} ngap={gap} history={[int(a) for a in path.acc]})"
                own = np.array(m.chain) if "chain" in track else X
                if "chain" in track and not S.close(own, X, 1e-9):
                    # judge the rows against the samples of this very run
                    pr = [prob.forward(x) for x in own]
                    want = dict(want, chain=own, predictions=np.array(pr).reshape(ns, prob.nd), L2=np.array([prob.L2(y) for y in pr]),
                                prior=np.array([prob.prior(x) for x in own]), logposterior=np.array([S.logpost(prob, cfg, x) for x in own]))
                for name in NAMES:
                    got = getattr(m, S.ATTR[name], None)
                    if name not in track:
                        if got is not None:
                            raise Violation(f"{label}: {name} is present although it is not tracked")
                        continue
                    if got is None:
                        raise Violation(f"{label}: {name} is missing")
                    if np.shape(got) != want[name].shape:
                        raise Violation(f"{label}: {name} has shape {np.shape(got)}, expected {want[name].shape}")
                    for j in range(ns):
                        if not S.close(got[j], want[name][j], 1e-8):
                            raise Violation(f"{label}: {name}[{j}] is {got[j]!r}; at saved sample {j} it is {want[name][j]!r}")
                if "chain" in track and prob.cplx and ns and (algo != "pxmala" or np.iscomplexobj(prob.start)) and not np.any(np.imag(m.chain)):
                    raise Violation(f"{label}: complex samples saved without imaginary parts")
                rec.trace()
                rec.step(n)
                rec.state(algo, prob.name, case["sched"], track, verb, tuple(path.acc), case["mu"], case["tune"])
        rec.outcome(np.round(want["logposterior"], 8).tobytes())
    rec.sample({"algo": algo, "problem": prob.name, "schedule": case["sched"], "logposterior": [float(v) for v in want["logposterior"]]})
