"""C06: SKROCK performs the s-stage stabilised Chebyshev recursion."""
import itertools

from mc import sampler as S

PROPERTY = "C06"
LEVEL = "model_checking"
ASSUMES = ["operators and priors are user-defined test doubles with documented interfaces",
           "noise outside the finite alphabet behaves like noise in it"]
RULE = "every noise sequence over the alphabet for every problem, number of stages and (lmda, delta); each visited state is compared with the model's iterative recursion"
BOUNDS = {"quick": "11 problems x s=1..8 x 2 (lmda, delta), all noise sequences of length 2 over 3 vectors; s=1..5 paths of 60 iterations; s=9, 12, 14 single steps; 3 large problems, 20 iterations; 3 problems in other units (parameters of 1e-5 and 1e4); 6 extreme (lmda, delta) with delta/lmda from 2e-4 to 20; no information in the data or in the prior, starts at zero; 2 problems with 2200 real and 900 complex parameters, 3 iterations",
          "thorough": "11 problems x s=1..10 x 4 (lmda, delta), all noise sequences of length 4 over 3 vectors (length 2 for s>6); s=1..6 paths of 400 iterations; s=11..16 single steps; 3 large problems, 200 iterations; 3 problems in other units (parameters of 1e-5 and 1e4); 6 extreme (lmda, delta) with delta/lmda from 2e-4 to 20; no information in the data or in the prior, starts at zero; 2 problems with 2200 real and 900 complex parameters, 20 iterations"}
ONLY = ("chain",)
PAIRS = [(0.4, 0.15), (0.3, 0.6), (2.0, 0.05), (0.05, 0.02)]

# step sizes far above lmda, far below it, and tiny ones
EXTREME = [(0.02, 0.3), (1e-3, 0.02), (3e-5, 1e-5), (5e-7, 1e-6), (50.0, 0.01), (1e3, 2.0)]


def cases(tier):
    q = tier == "quick"
    out = []
    for s in range(1, 9 if q else 11):
        for lm, de in PAIRS[: 2 if q else 4]:
            for prob in S.PROBS:
                out.append({"prob": prob, "cfg": {"lmda": lm, "delta": de, "s": s, "ngap": 1, "mu": 1.0}, "depth": 2 if q or s > 6 else 4, "alpha": 3})
    for s in range(1, 6 if q else 7):
        for prob in S.PROBS:
            out.append({"prob": prob, "cfg": {"s": s, "ngap": 1}, "long": 60 if q else 400})
    for s in (1, 2, 3, 6):
        for lm, de in EXTREME:
            for prob in S.PROBS:
                out.append({"prob": prob, "cfg": {"lmda": lm, "delta": de, "s": s, "ngap": 1}, "depth": 1 if q else 3, "alpha": 3})
    for s in (9, 12, 14) if q else range(11, 17):
        for prob in ("real2", "cplx1"):
            out.append({"prob": prob, "cfg": {"s": s, "ngap": 1}, "depth": 1, "alpha": 2 if s < 13 else 1})
    for s in (1, 2, 3, 5) if q else range(1, 9):
        for prob in S.BIG:
            out.append({"prob": prob, "cfg": {"s": s, "ngap": 1}, "long": 20 if q else 200})
        for prob in S.SCALED:
            out.append({"prob": prob, "cfg": S.scaled_cfg(prob, {"s": s, "ngap": 1}), "long": 20 if q else 200})
        for prob in S.DULL:
            out.append({"prob": prob, "cfg": {"s": s, "ngap": 1}, "long": 10 if q else 100})
        for prob in S.HUGE:
            out.append({"prob": prob, "cfg": {"s": s, "ngap": 1}, "long": 3 if q else 20})
    return out


def run_case(case, rec):
    if "actions" in case:
        return S.replay(case, rec, ONLY)
    prob = S.PROBS[case["prob"]]
    if "long" in case:
        cfg = S.Cfg(case["cfg"], nsamples=case["long"])
        S.conform("skrock", prob, cfg, [(S.zlong(prob, i), None) for i in range(case["long"])], rec, ONLY)
        return
    cfg = S.Cfg(case["cfg"], nsamples=case["depth"])
    for seq in itertools.product(range(case["alpha"]), repeat=case["depth"]):
        S.conform("skrock", prob, cfg, [(S.zvec(prob, k), None) for k in seq], rec, ONLY)
    rec.sample({"problem": prob.name, "cfg": dict(cfg), "noise": list(seq)})
