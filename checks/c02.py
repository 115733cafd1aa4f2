"""C02: MYULA moves by the Moreau-Yosida Langevin update."""
import itertools

from mc import sampler as S

PROPERTY = "C02"
LEVEL = "model_checking"
ASSUMES = ["noise outside the finite alphabet behaves like noise in it (the update is affine in the noise)",
           "operators and priors are user-defined test doubles with documented interfaces"]
RULE = "every noise sequence over the alphabet, from every problem and step-size pair; each state of each path is compared with the model"
BOUNDS = {"quick": "11 problems x 5 (lmda, delta) x 2 mu x all noise sequences of length 3 over 3 vectors; 2 long paths of 400 iterations per problem; 3 problems with up to 30 parameters or log posteriors of -1e6, 40 iterations; 3 problems in other units (parameters of 1e-5 and 1e4); 6 extreme (lmda, delta) with delta/lmda from 2e-4 to 20; no information in the data or in the prior, starts at zero; 2 problems with 2200 real and 900 complex parameters, 4 iterations",
          "thorough": "11 problems x 9 (lmda, delta) x 2 mu x all noise sequences of length 5 over 4 vectors; long paths of 3000 iterations; 3 large problems, 1000 iterations; 3 problems in other units (parameters of 1e-5 and 1e4); 6 extreme (lmda, delta) with delta/lmda from 2e-4 to 20; no information in the data or in the prior, starts at zero; 2 problems with 2200 real and 900 complex parameters, 60 iterations"}
ONLY = ("chain",)
PAIRS = [(0.4, 0.15), (0.1, 0.1), (0.3, 0.02), (0.05, 0.1), (2.0, 0.3), (1.0, 1e-4), (0.02, 0.01), (5.0, 0.5), (0.4, 0.4)]

# step sizes far above lmda, far below it, and tiny ones
EXTREME = [(0.02, 0.3), (1e-3, 0.02), (3e-5, 1e-5), (5e-7, 1e-6), (50.0, 0.01), (1e3, 2.0)]


def cases(tier):
    q = tier == "quick"
    out = []
    for lm, de in PAIRS[: 5 if q else 9]:
        for prob in S.PROBS:
            for mu in (1.0, 2.5):
                out.append({"kind": "tree", "prob": prob, "cfg": {"lmda": lm, "delta": de, "mu": mu, "ngap": 1},
                            "depth": 3 if q else 5, "alpha": 3 if q else 4})
    for prob in S.PROBS:
        for lm, de in PAIRS[:2]:
            out.append({"kind": "long", "prob": prob, "cfg": {"lmda": lm, "delta": de, "ngap": 1}, "n": 400 if q else 3000})
    for prob in S.BIG:
        for lm, de in PAIRS[:3]:
            out.append({"kind": "long", "prob": prob, "cfg": {"lmda": lm, "delta": de, "ngap": 1}, "n": 40 if q else 1000})
    for prob in S.SCALED:
        for lm, de in PAIRS[:2]:
            cfg = S.scaled_cfg(prob, {"lmda": lm, "delta": de, "ngap": 1})
            out += [{"kind": "tree", "prob": prob, "cfg": cfg, "depth": 3, "alpha": 3}, {"kind": "long", "prob": prob, "cfg": cfg, "n": 100 if q else 1000}]
    for lm, de in EXTREME:
        for prob in S.PROBS:
            out.append({"kind": "tree", "prob": prob, "cfg": {"lmda": lm, "delta": de, "ngap": 1}, "depth": 2 if q else 4, "alpha": 3})
    for prob in S.DULL:
        for lm, de in PAIRS[:2]:
            cfg = {"lmda": lm, "delta": de, "ngap": 1}
            out += [{"kind": "tree", "prob": prob, "cfg": cfg, "depth": 3, "alpha": 3}, {"kind": "long", "prob": prob, "cfg": cfg, "n": 60 if q else 500}]
    for prob in S.HUGE:
        for lm, de in PAIRS[:3]:
            out.append({"kind": "long", "prob": prob, "cfg": {"lmda": lm, "delta": de, "ngap": 1}, "n": 4 if q else 60})
    return out


def run_case(case, rec):
    if "actions" in case:
        return S.replay(case, rec, ONLY)
    prob = S.PROBS[case["prob"]]
    if case["kind"] == "long":
        cfg = S.Cfg(case["cfg"], nsamples=case["n"])
        S.conform("myula", prob, cfg, [(S.zlong(prob, i), None) for i in range(case["n"])], rec, only=ONLY)
        return
    for n in (1, case["depth"]):
        cfg = S.Cfg(case["cfg"], nsamples=n)
        for seq in itertools.product(range(case["alpha"]), repeat=n):
            S.conform("myula", prob, cfg, [(S.zvec(prob, k), None) for k in seq], rec, only=ONLY)
    rec.sample({"problem": prob.name, "cfg": dict(cfg), "last noise sequence": list(seq)})
