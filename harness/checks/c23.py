"""C23: where the noise comes from, against NoiseSource.tla."""
import hashlib

from vlib import call
import halo

SEED = {"a": 0, "b": 0, "c": 1}


def show(x):
    """An answer as text: points by their numbers, anything else by its type."""
    if isinstance(x, (list, tuple)):
        return [show(y) for y in x]
    if hasattr(x, "impressions"):
        return [[round(float(v), 9) for v in x.impressions],
                [round(float(x.reach(k)), 9) for k in range(1, x.max_frequency + 1)],
                [round(float(v), 9) for v in (x.spends or [])]]
    return type(x).__name__


def digest(x):
    return hashlib.md5(repr(x).encode()).hexdigest()[:16]


def drive(script):
    import random
    import numpy as np
    from wfa_cardinality_estimation_evaluation_framework import verif_probe as vp
    from wfa_planning_evaluation_framework.models.reach_curve import ReachCurve
    from wfa_planning_evaluation_framework.simulator.m3_strategy import M3Strategy
    from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyBudget
    from wfa_planning_evaluation_framework.simulator.single_publisher_strategy import SinglePublisherStrategy

    points = []

    class Curve(ReachCurve):
        def __init__(self, data, **kw):
            points.append(list(data))

        def _fit(self):
            self._max_reach = 10

    class Surface:
        def __init__(self, curves, training, **kw):
            points.append(list(training))

        def _fit(self):
            pass

    vp.reset()
    vp.FINGERPRINT = True
    p = len(script["ds"])
    world = {}
    for s in sorted(SEED):
        world[s] = halo.build(dict(script, schemes=["int"] * p),
                              generator=np.random.default_rng(script["seeds"][SEED[s]]))
    tr = [{"op": "world"}]
    for o in script["ops"]:
        if o["q"] == "foreign":
            np.random.rand(3), random.random(), np.random.default_rng(5).random()
            tr.append({"op": "foreign"})
            continue
        b = world[o["sys"]]
        sp = [float(x) for x in o["sp"]]
        budget = PrivacyBudget(o["eps"], 1e-6)
        del vp.RELEASES[:], points[:]
        g0 = vp.fingerprint(np.random.mtrand._rand), random.getstate()
        truth = o["q"] == "true"
        if truth:
            ok, v = call(b.halo.true_reach_by_spend, sp, o["f"])
        elif o["q"] == "reach":
            ok, v = call(b.halo.simulated_reach_by_spend, sp, budget, o["split"], o["f"])
        elif o["q"] == "venn":
            ok, v = call(b.halo.simulated_venn_diagram_reach_by_spend, sp, budget, o["split"])
        elif o["q"] == "refused":
            ok, v = call(b.halo.simulated_venn_diagram_reach_by_spend, sp, budget, o["split"], 2)
        elif p == 1 and o["f"] % 2:
            ok, v = call(SinglePublisherStrategy(Curve, {}, None, {}).fit, b.halo, b.params, budget)
        else:
            ok, v = call(M3Strategy(Curve, {}, Surface, {}).fit, b.halo, b.params, budget)
        g1 = vp.fingerprint(np.random.mtrand._rand), random.getstate()
        streams = [r["state"] for r in vp.RELEASES]
        tr.append({"op": "query", "sys": o["sys"], "seed": 1 + SEED[o["sys"]], "truth": truth,
                   "q": "%s|%s|%s|%s|%s" % (o["q"], sp, o["f"], o["eps"], o["split"]),
                   "answer": digest([ok, show(points) if o["q"] == "fit" else show(v) if ok else v]),
                   "streams": streams, "globkept": g0 == g1,
                   "must": ok and o["q"] in ("reach", "fit") or ok and o["q"] == "venn" and any(sp)})
    vp.reset()
    return tr


def run(ctx):
    ctx.rule = ("interleavings of queries, fits and foreign draws over two equal systems and a differently seeded one, from the "
                "bounded specification and seeded longer ones in which equal histories are replayed; non-trivial: at least two "
                "queries noise something")
    ctx.model_check("MCNoiseSource")
    gen = ctx.generate("NoiseSourceGen")
    rng = ctx.rng("c23")
    rng.shuffle(gen)

    def base():
        p = rng.choice([1, 2, 3, 4])
        nu = rng.choice([2, 6, 20])
        return dict(ds=[[{"u": rng.randint(1, nu), "p": rng.randint(1, 4)} for _ in range(rng.choice([1, 6, 20]))]
                        for _ in range(p)],
                    nusers=nu, nprices=4, fractions=[rng.choice([0.5, 1.0]) for _ in range(p)], seed=1,
                    uscheme="seq", universe=None, ll=rng.choice([[12, 1000, 1], [10, 300, 2]]),
                    seeds=rng.sample([0, 1, 2, 12345, 2**31, 999, 10**9, 7], 2))

    def query(s, q, p):
        return dict(sys=s, q=q, sp=[rng.choice([0, 1, 2, 4, 9]) for _ in range(p)], f=rng.choice([1, 2, 5]),
                    eps=rng.choice([0.1, 1.0, 10.0]), split=rng.choice([0.5, 0.25, 0.9]))

    scripts = []
    for h in gen[: ctx.pick(350, 3000)]:
        s = base()
        p = len(s["ds"])
        # the twins meet the same queries where the history allows: one query per kind
        menu = {q: query("", q, p) for q in ("reach", "venn", "true", "fit", "refused")}
        s["ops"] = [dict(menu[o["q"]], sys=o["sys"]) if o["q"] != "foreign" else o for o in h]
        scripts.append(s)
    for _ in range(ctx.pick(200, 2500)):
        s = base()
        p = len(s["ds"])
        qs = [query("a", rng.choice(["reach", "reach", "venn", "venn", "fit", "true", "refused"]), p) for _ in range(rng.randint(2, 5))]
        if rng.random() < 0.6:
            qs += [dict(q) for q in rng.sample(qs, rng.randint(1, len(qs)))]  # asked again: fresh noise
        twin = [dict(q, sys="b") for q in qs]
        other = [dict(q, sys="c") for q in qs]
        if rng.random() < 0.5:  # truth may be asked at any time
            twin.insert(rng.randrange(len(twin) + 1), query("b", "true", p))
        queues = [qs, twin, other]
        ops = []
        while any(queues):
            k = rng.choice([x for x in queues if x])
            ops.append(k.pop(0))
            if rng.random() < 0.15:
                ops.append(dict(sys="-", q="foreign"))
        s["ops"] = ops
        scripts.append(s)
    traces = ctx.pmap(drive, scripts, seconds=100)
    ctx.validate("NoiseSourceTrace", traces, nontrivial=lambda t: sum(1 for e in t if e.get("streams")) > 1)
    ctx.assumptions = ["the states of the noise sources are read in the stand-in noisers of shims/ just before each noised quantity",
                       "fits use probe curves and surfaces, so that only the questions to the system draw"]
