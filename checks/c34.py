"""C34: samplers that share components may run at the same time.

Two samplers run in two threads under a scheduler that decides, at every line of the package, which of them goes on; every
schedule with the stated number of preemptions is explored and each run compared with the same run done alone.
"""
import itertools

import numpy as np

from checks import c09, c25
from mc import rng, sched, sampler as S
from mc.core import Violation
from mc.linear import gen

PROPERTY = "C34"
LEVEL = "model_checking"
KIND = "threads"
ASSUMES = ["preemption between lines of the package (library calls on a line are not split)", "each run's random draws are its own"]
RULE = "every schedule of two calls on shared components, and of two sampler runs, with the stated number of preemptions, at every line (or call) of the package; both results are compared with those of the runs done alone"
BOUNDS = {"quick": "18 components: all pairs of calls on one or two objects, all schedules with 1 preemption at any line (2 for calls of up to 12 lines); 16 pairs of samplers x 3 worlds (test doubles real and complex, built-in operators and priors), 2 iterations (real) or 1: all schedules with 1 preemption at any line; built-in world, 4 pairs, 1 iteration: all with 2 preemptions at any function call",
          "thorough": "the components as quick; 16 pairs x 4 worlds (adds wavelets), 3 iterations, all schedules with 1 preemption at any line; 4 worlds x 10 pairs, 2 iterations, 2 preemptions at any call; built-in world x 10 pairs, 1 iteration, 2 preemptions at any line"}
ALGOS = c09.ALGOS
PARTS = 8
MAXPAIRS = 150  # two preemptions are explored for pairs of calls of up to 12 lines each


def cases(tier):
    q = tier == "quick"
    out = [{"component": k, "other": o} for k in c25.KINDS for o in (0, 1)]
    for w, a, b in itertools.product(["real", "complex", "builtin"] + ([] if q else ["wavelet"]), ALGOS, ALGOS):
        out.append({"world": w, "A": a, "B": b, "iters": (2 if w == "real" else 1) if q else 3, "preempt": 1})
    for w in ["builtin"] if q else ["real", "complex", "builtin", "wavelet"]:
        pairs = [("myula", "myula"), ("myula", "pxmala-tune"), ("pxmala-tune", "pxmala-tune"), ("myula", "skrock")] if q else itertools.combinations_with_replacement(ALGOS, 2)
        for (a, b), part in itertools.product(pairs, range(PARTS)):
            out.append({"world": w, "A": a, "B": b, "iters": 1 if q else 2, "preempt": 2, "part": part, "calls": 1})
    if not q:
        for (a, b), part in itertools.product(itertools.combinations_with_replacement(ALGOS, 2), range(PARTS)):
            out.append({"world": "builtin", "A": a, "B": b, "iters": 1, "preempt": 2, "part": part})
    return out


class World(c09.World):
    def __init__(self, kind, iters):
        super().__init__(kind)
        self.params.nsamples, self.params.nburn, self.params.ngap, self.params.verbosity, self.params.s = iters, 0, 1, 1, 2


_alone = {}


def alone(case, which):
    algo, k = case["AB"[which]], which
    key = (case["world"], case["iters"], algo, k)
    if key not in _alone:
        w = World(case["world"], case["iters"])
        m = w.make(algo)
        with rng.scripted(c09.script(k, algo, w.n, w.cplx)):
            m.run(w.start.copy())
        _alone[key] = c09.results(m)
    return _alone[key]


def explore(case, switches, rec):
    w = World(case["world"], case["iters"])
    before = w.inputs()
    ms = [w.make(case["A"]), w.make(case["B"])]
    scripts = [c09.script(i, case["AB"[i]], w.n, w.cplx) for i in (0, 1)]
    starts = [w.start.copy(), w.start.copy()]

    def on_switch(t):
        rng._active = scripts[t]

    try:
        lines, errors = sched.interleave([lambda: ms[0].run(starts[0]), lambda: ms[1].run(starts[1])], switches, on_switch, bool(case.get("calls")))
    finally:
        rng._active = None
    rec.step(len(switches) + 1)
    rec.trace()
    what = f"{case['A']} and {case['B']} ({case['world']} components) run at the same time, switching " + ", ".join(f"after {n} {'calls' if case.get('calls') else 'lines'} of run {'AB'[t]}" for t, n in switches)
    for i in (0, 1):
        if errors[i] is not None:
            raise Violation(f"{what}: run {'AB'[i]} fails with {type(errors[i]).__name__}: {errors[i]}", dict(case, switches=switches))
        d = c09.differs(c09.results(ms[i]), alone(case, i))
        if d:
            raise Violation(f"{what}: run {'AB'[i]} differs from the same run done alone: {d}", dict(case, switches=switches))
    after = w.inputs()
    for k in before[0]:
        if not np.array_equal(before[0][k], after[0][k]):
            raise Violation(f"{what}: {k} changed", dict(case, switches=switches))
    if before[1] != after[1]:
        raise Violation(f"{what}: the shared parameters changed", dict(case, switches=switches))
    return lines


def call(kind, objs, o, m, i):
    ob, methods, _ = objs[o]
    x = gen(methods[m], i)
    if i or kind.startswith(("Forward", "L1", "S2")):
        x = x.real.copy()
    return np.array(getattr(ob, m)(x))


def component(case, rec):
    """Two calls on one component, or on two differently configured ones of a class, at the same time."""
    kind, o = case["component"], case["other"]
    objs = [c25.world(kind, 0), c25.world(kind, 1)]
    todo = [case["methods"]] if "methods" in case else list(itertools.product(objs[0][1], objs[o][1]))
    for ma, mb in todo:
        sides = [(0, ma, 0), (o, mb, 1)]
        fresh = [call(kind, [c25.world(kind, 0), c25.world(kind, 1)], *s) for s in sides]

        def go(switches):
            got = [None, None]

            def body(t):
                def f():
                    got[t] = call(kind, objs, *sides[t])
                return f

            lines, errors = sched.interleave([body(0), body(1)], switches)
            rec.step(len(switches) + 1)
            rec.trace()
            for t in (0, 1):
                if errors[t] is not None or not S.close(got[t], fresh[t], 1e-10):
                    raise Violation(f"{kind}: {ma} and {mb} of {'one object' if o == 0 else 'two objects'} called at the same time, switching " + ", ".join(f"after {n} lines of call {'AB'[q]}" for q, n in switches)
                                    + f": call {'AB'[t]} ({sides[t][1]}) " + (f"fails with {errors[t]!r}" if errors[t] is not None else "does not return what it returns alone"), dict(case, methods=[ma, mb]))
            return lines

        lines = go([])
        for t in (0, 1):
            for p in range(lines[t] + 1):
                go([(t, p)])
                rec.state(kind, o, ma, mb, t, p)
                for q in range(lines[1 - t] + 1) if lines[0] * lines[1] <= MAXPAIRS else ():
                    go([(t, p), (1 - t, q)])
                    rec.state(kind, o, ma, mb, t, p, q)
    rec.outcome(kind, o)


def run_case(case, rec):
    if "component" in case:
        return component(case, rec)
    if "switches" in case:  # replay
        explore(case, [tuple(s) for s in case["switches"]], rec)
        return
    lines = explore(case, [], rec)
    lab = (case["world"], case["A"], case["B"], case["iters"])
    if case["preempt"] == 1:
        for t in (0, 1):
            for p in range(0, lines[t] + 1):
                explore(case, [(t, p)], rec)
                rec.state(lab, t, p)
    else:
        for t in (0, 1):
            for p in range(case["part"], lines[t] + 1, PARTS):
                for q in range(0, lines[1 - t] + 1):
                    explore(case, [(t, p), (1 - t, q)], rec)
                    rec.state(lab, t, p, q)
    rec.outcome(lab)
    rec.sample(dict(case, lines=lines))
