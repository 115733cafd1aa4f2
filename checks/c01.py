"""C01: samplers keep exactly the scheduled iterations of the chain.

The reference for a schedule is the same code's own unthinned run (nburn=0, ngap=1) on the same
draws; that run is in turn tied to iterations by dependence: row i must change when the noise
of iteration i changes, and not when noise of a later iteration does.
"""
import itertools

import numpy as np

from mc import sampler as S
from mc.core import Violation

PROPERTY = "C01"
LEVEL = "model_checking"
ASSUMES = ["all random numbers come from numpy's generators (scripted, one stream per distribution)"]
RULE = ("every schedule (nsamples, nburn, ngap) in the box, for every algorithm, verbosity and, for PxMALA, every feasible "
        "accept/reject history; saved rows are compared with the same code's unthinned run, and the draws consumed are counted")
BOUNDS = {
    "quick": "nsamples 0..5 x nburn 0..6 x ngap 0..5 x 3 samplers x 2 problems x verbosity {0,1,2.0}, nburn integer or float; all PxMALA histories for runs of <= 6 iterations; 18 larger schedules up to 7000 iterations",
    "thorough": "nsamples 0..8 x nburn 0..12 x ngap 0..8 x 3 samplers x 4 problems x verbosity {0,1,2.0,3.0,7.0}, nburn integer or float; all PxMALA histories for runs of <= 9 iterations; 46 larger schedules up to 7000 iterations",
}
LARGE = [(1, 150, 7), (3, 100, 50), (12, 37, 13), (40, 0, 3), (200, 0, 0), (5, 99, 100), (2, 0, 97), (101, 101, 1),
         (1, 0, 500), (7, 300, 2), (30, 10, 10), (64, 64, 8),
         (60, 1000, 100), (2500, 0, 1), (5000, 0, 0), (3, 2000, 600), (2, 0, 2000), (2, 5000, 1)]
LARGE_T = LARGE + [(a, b, c) for a in (1, 33, 100) for b in (0, 1, 500, 1000) for c in (1, 17, 50)][:28]


def cases(tier):
    q = tier == "quick"
    box = (range(6), range(7), range(6)) if q else (range(9), range(13), range(9))
    probs = ["real2", "cplx1"] if q else ["one", "real2", "cplx1", "realcplx"]
    verb = [0, 1, 2] if q else [0, 1, 2, 3, 7]
    out = []
    for algo in ("myula", "skrock", "pxmala"):
        for prob in probs:
            out.append({"kind": "base", "algo": algo, "prob": prob})
    for ns, nb in itertools.product(box[0], box[1]):
        for prob in probs:
            for algo in ("myula", "skrock"):
                out.append({"kind": "grid", "algo": algo, "prob": prob, "ns": ns, "nb": nb, "gaps": list(box[2]), "verb": verb})
            for tune in (False, True):
                out.append({"kind": "grid", "algo": "pxmala", "prob": prob, "ns": ns, "nb": nb, "gaps": list(box[2]), "verb": verb,
                            "tune": tune, "full": 6 if q else 9})
    for ns, nb, gap in LARGE if q else LARGE_T:
        for algo in ("myula", "skrock", "pxmala"):
            out.append({"kind": "large", "algo": algo, "prob": "real2", "ns": ns, "nb": nb, "gaps": [gap], "verb": [0, 5]})
    return out


def cfg_of(case, **kw):
    return S.Cfg(kw, s=2, lmda=0.4, delta=0.15, tune=bool(case.get("tune")))


def base_run(algo, prob, case, path, n):
    """Unthinned run of n iterations on the draws of ``path``."""
    m = S.observe(algo, prob, cfg_of(case, nsamples=n, nburn=0, ngap=1), path.g[: n * width(prob)], path.u[:n])
    if np.shape(m.chain) != (n, prob.n):
        raise Violation(f"{algo}: {n} samples requested, chain has shape {np.shape(m.chain)}")
    return np.array(m.chain)


def width(prob):
    return prob.n * (2 if prob.cplx else 1)


def check_schedule(algo, prob, case, path, base, ns, nb, gap, verb, rec):
    cfg = cfg_of(case, nsamples=ns, nburn=nb, ngap=gap, verbosity=verb, track=("chain",) if verb else S.Cfg.DEF["track"])
    n = S.n_iter(cfg)
    if verb >= 2:  # as the weak lensing example does (nburn=10e6, verbosity=1e3)
        cfg = S.Cfg(cfg, nburn=float(nb), verbosity=float(verb))
    m = S.observe(algo, prob, cfg, path.g[: n * width(prob)], path.u[:n])
    if np.shape(m.chain) != (ns, prob.n):
        raise Violation(f"{algo} {dict(cfg)}: chain has shape {np.shape(m.chain)}")
    step = max(gap, 1)
    for j in range(ns):
        if not S.close(m.chain[j], base[nb + j * step], 1e-9):
            raise Violation(
                f"{algo} on '{prob.name}', nsamples={ns} nburn={nb} ngap={gap} verbosity={verb} history={[int(a) for a in path.acc]}: saved sample {j} is "
                f"{m.chain[j]!r}, the state after iteration {nb + j * step} is {base[nb + j * step]!r}")
    rec.trace()
    rec.step(n)
    rec.state(algo, prob.name, ns, nb, gap, verb, tuple(path.acc[:n]))
    rec.outcome(np.round(m.chain, 9).tobytes())


def patterns(n):
    yield [True] * n
    yield [i % 2 == 0 for i in range(n)]
    yield [i % 2 == 1 for i in range(n)]
    yield [i % 3 == 2 for i in range(n)]
    yield [i % 5 != 3 for i in range(n)]
    yield [False] * n


def pxmala_path(prob, cfg, hist):
    """Noise chosen per iteration so that the wanted decision is feasible, if possible."""
    path = S.Path(np.array(prob.start, dtype=complex if prob.cplx else float), cfg.delta)
    for i, dec in enumerate(hist):
        q = None
        for k in range(4):
            q = S.extend("pxmala", prob, cfg, path, S.zlong(prob, i + 1000 * k), S.mode_of("pxmala"), dec, inplace=True)
            if q is not None:
                break
        if q is None:
            return None
    return path


def run_case(case, rec):
    algo, prob = case["algo"], S.PROBS[case["prob"]]
    if case["kind"] == "base":
        return base_case(algo, prob, case, rec)
    ns, nb = case["ns"], case["nb"]
    for gap in case["gaps"]:
        n = S.n_iter(cfg_of(case, nsamples=ns, nburn=nb, ngap=gap))
        if algo != "pxmala":
            paths = [S.script_for(algo, prob, cfg_of(case), n)]
        else:
            if case["kind"] == "grid" and n <= case["full"]:
                hists = itertools.product((True, False), repeat=n)
            else:
                hists = patterns(n) if n < 1500 else list(patterns(n))[1:3]
            paths = []
            for h in hists:
                p = pxmala_path(prob, cfg_of(case), h)
                if p is None:
                    rec.extra["infeasible_histories"] += 1
                else:
                    paths.append(p)
            if not paths:
                raise RuntimeError("no feasible history")
        for path in paths:
            base = base_run(algo, prob, case, path, n) if n else np.zeros((0, prob.n))
            verbs = case["verb"] if algo != "pxmala" or len(paths) < 20 else case["verb"][:2]
            for verb in verbs:
                check_schedule(algo, prob, case, path, base, ns, nb, gap, verb, rec)
    rec.sample({"algo": algo, "problem": prob.name, "nsamples": ns, "nburn": nb, "gaps": case["gaps"]})


def base_case(algo, prob, case, rec):
    """Rows of the unthinned run belong to their iterations."""
    n, w = 7, width(prob)
    g0 = [z for i in range(n) for z in S.zlong(prob, i)]
    u0 = [1e-250] * n if algo == "pxmala" else []

    def run(g):
        m = S.observe(algo, prob, cfg_of(case, nsamples=n, nburn=0, ngap=1), g, u0)
        rec.trace()
        rec.step(n)
        return np.array(m.chain)

    ref = run(g0)
    if np.shape(ref) != (n, prob.n):
        raise Violation(f"{algo}: {n} samples requested, chain has shape {np.shape(ref)}")
    for i in range(n):
        for c in range(w):
            g = list(g0)
            g[i * w + c] += 0.37
            alt = run(g)
            rec.state("dep", algo, prob.name, i, c)
            for j in range(n):
                changed = not np.array_equal(alt[j], ref[j])
                if changed != (j >= i):
                    raise Violation(f"{algo} on '{prob.name}': changing noise entry {c} of iteration {i} "
                                    f"{'changes' if changed else 'does not change'} saved sample {j}")
    if algo == "pxmala":  # saved row repeats exactly when the proposal was rejected
        for hist in itertools.product((True, False), repeat=5):
            path = pxmala_path(prob, cfg_of(case), hist)
            if path is None:
                continue
            m = S.observe(algo, prob, cfg_of(case, nsamples=5, nburn=0, ngap=1), path.g, path.u)
            rec.trace()
            rec.step(5)
            prev = np.array(prob.start)
            for j, a in enumerate(m.acceptance_trace):
                if bool(a) == bool(np.array_equal(m.chain[j], prev)):
                    raise Violation(f"pxmala on '{prob.name}', decisions {[int(x) for x in m.acceptance_trace]}: saved sample {j} "
                                    f"{'repeats' if a else 'differs from'} the state before it")
                prev = m.chain[j].copy()
