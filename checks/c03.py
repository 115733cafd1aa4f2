"""C03: PxMALA accepts with exactly the Metropolis-Hastings probability."""
from mc import sampler as S

PROPERTY = "C03"
LEVEL = "model_checking"
ASSUMES = ["operators and priors are user-defined test doubles with documented interfaces",
           "the log acceptance ratio is decided to a relative 1e-6: the uniform draw is placed just below and just above the model's ratio"]
RULE = ("every feasible sequence of (noise vector, accept/reject); for each decision the scripted uniform draw lies within 1e-6 of "
        "the model's acceptance ratio, so a code whose ratio differs takes the other branch and its chain leaves the model's path")
BOUNDS = {
    "quick": "11 problems x 4 (lmda, delta) x 2 mu x tuning on/off, all decision/noise sequences of depth 3 over 2 noise vectors and of depth 6 over 1; long paths of 300 iterations; 3 problems with up to 30 parameters or log posteriors of -1e6, 60 iterations; 3 problems in other units (parameters of 1e-5 and 1e4); 6 extreme (lmda, delta) with delta/lmda from 2e-4 to 20; no information in the data or in the prior, starts at zero; 2 problems with 2200 real and 900 complex parameters, 6 iterations; a prior that is infinite outside a box",
    "thorough": "11 problems x 7 (lmda, delta) x 3 mu x tuning on/off, all sequences of depth 4 over 3 noise vectors and of depth 10 over 1; long paths of 3000 iterations; 3 large problems, 1500 iterations; 3 problems in other units (parameters of 1e-5 and 1e4); 6 extreme (lmda, delta) with delta/lmda from 2e-4 to 20; no information in the data or in the prior, starts at zero; 2 problems with 2200 real and 900 complex parameters, 60 iterations; a prior that is infinite outside a box",
}
ONLY = ("chain",)
PAIRS = [(0.4, 0.15), (0.3, 0.02), (0.1, 0.1), (2.0, 0.5), (1.0, 1e-4), (0.05, 0.2), (5.0, 0.3)]

# step sizes far above lmda, far below it, and tiny ones
EXTREME = [(0.02, 0.3), (1e-3, 0.02), (3e-5, 1e-5), (5e-7, 1e-6), (50.0, 0.01), (1e3, 2.0)]


def cases(tier):
    q = tier == "quick"
    out = []
    for lm, de in PAIRS[: 4 if q else 7]:
        for prob in S.PROBS:
            for mu in (1.0, 2.5) if q else (1.0, 2.5, 0.1):
                for tune in (False, True):
                    cfg = {"lmda": lm, "delta": de, "mu": mu, "tune": tune, "ngap": 1}
                    for depth, alpha in ((3, 2), (6, 1)) if q else ((4, 3), (10, 1)):
                        out.append({"prob": prob, "cfg": cfg, "depth": depth, "alpha": alpha})
    for prob in S.PROBS:
        for tune in (False, True):
            out.append({"prob": prob, "cfg": {"tune": tune, "ngap": 1}, "long": 300 if q else 3000})
    for tune in (False, True):
        for lm, de in ((0.4, 0.15), (0.3, 0.02), (1.0, 0.6)):
            cfg = {"lmda": lm, "delta": de, "tune": tune, "ngap": 1}
            out += [{"prob": "box", "cfg": cfg, "depth": 4, "alpha": 3}, {"prob": "box", "cfg": cfg, "long": 60 if q else 1500}]
    for prob in S.BIG:
        for tune in (False, True):
            for de in (0.15, 0.02):
                out.append({"prob": prob, "cfg": {"tune": tune, "ngap": 1, "delta": de}, "long": 60 if q else 1500})
    for prob in S.SCALED:
        for tune in (False, True):
            cfg = S.scaled_cfg(prob, {"tune": tune, "ngap": 1})
            out += [{"prob": prob, "cfg": cfg, "depth": 3, "alpha": 2}, {"prob": prob, "cfg": cfg, "long": 60 if q else 1500}]
    for prob in S.PROBS:
        out.append({"prob": prob, "cfg": {"mu": 0.0, "tune": True, "ngap": 1}, "depth": 3, "alpha": 2})
    for lm, de in EXTREME:
        for prob in S.PROBS:
            for tune in (False, True):
                out.append({"prob": prob, "cfg": {"lmda": lm, "delta": de, "tune": tune, "ngap": 1}, "depth": 3 if q else 4, "alpha": 2})
    for prob in S.DULL:
        for tune in (False, True):
            for de in (0.15, 0.6):
                cfg = {"tune": tune, "ngap": 1, "delta": de}
                out += [{"prob": prob, "cfg": cfg, "depth": 3, "alpha": 2}, {"prob": prob, "cfg": cfg, "long": 60 if q else 1500}]
    for prob in S.HUGE:
        for tune in (False, True):
            for de in (1e-3, 1e-5):
                out.append({"prob": prob, "cfg": {"tune": tune, "ngap": 1, "delta": de}, "long": 6 if q else 60})
    return out


def run_case(case, rec):
    if "actions" in case:
        return S.replay(case, rec, ONLY)
    prob = S.PROBS[case["prob"]]
    if "long" in case:
        n = case["long"]
        cfg = S.Cfg(case["cfg"], nsamples=n)
        for lean in (True, False):  # prefer acceptance / prefer rejection, where feasible
            path = S.Path(S.np.array(prob.start, dtype=complex if prob.cplx else float), cfg.delta)
            acts = []
            for i in range(n):
                z = S.zlong(prob, i)
                want = (i % 3 != 0) if lean else (i % 3 == 0)
                for dec in (want, not want):
                    if S.extend("pxmala", prob, cfg, path, z, S.mode_of("pxmala"), dec, inplace=True) is not None:
                        break
                acts.append((z, dec))
            S.conform("pxmala", prob, cfg, acts, rec, ONLY)
        return
    cfg = S.Cfg(case["cfg"], nsamples=case["depth"])
    last = None
    for acts in S.decision_tree(prob, cfg, lambda d: [S.zvec(prob, k) for k in range(case["alpha"])], case["depth"]):
        S.conform("pxmala", prob, cfg, acts, rec, ONLY)
        last = acts
    rec.sample({"problem": prob.name, "cfg": dict(cfg), "last decisions": [d for _, d in last] if last else None})
