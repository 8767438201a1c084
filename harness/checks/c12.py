"""C12: ReachCurve quantile search against QuantileSearch.tla."""
import bisect
import math

from vlib import call, as_int


def make_curve(imps_steps, spend_steps, max_reach, kind):
    """A curve whose reach at i is the number (or weight) of steps at or below i."""
    from wfa_planning_evaluation_framework.models.reach_point import ReachPoint
    from wfa_planning_evaluation_framework.models.reach_curve import ReachCurve

    class StepCurve(ReachCurve):
        calls = 0

        def __init__(self):
            super().__init__([ReachPoint([10], [5])], max_reach)

        def at(self, steps, x):
            self.calls += 1
            if self.calls > 5000:
                raise TimeoutError("endless search")
            r = bisect.bisect_right(steps, x)
            return float(r) if kind == "float" else r

        def by_impressions(self, impressions, max_frequency=1):
            (i,) = impressions
            return ReachPoint([i], [self.at(imps_steps, i)])

        def by_spend(self, spends, max_frequency=1):
            (s,) = spends
            return ReachPoint([0], [self.at(spend_steps, s)], [s])

    return StepCurve()


def drive(script):
    out = []
    if script["op"] == "real":
        from wfa_planning_evaluation_framework.models.reach_point import ReachPoint
        from wfa_planning_evaluation_framework.models.goerg_model import GoergModel

        m = GoergModel([ReachPoint([script["I"]], [script["R"]], [script["cost"]])])
        for q in script["qs"]:
            for fn, at in ((m.impressions_at_reach_quantile, m.by_impressions), (m.spend_at_reach_quantile, m.by_spend)):
                mr = m.max_reach
                before = m.by_impressions([7]).reach()
                ok, a = call(fn, q)
                ev = {"op": "real", "ok": ok, "err": "" if ok else a, "same": m.max_reach == mr and m.by_impressions([7]).reach() == before}
                if ok:
                    ev["within"] = bool(at([a]).reach() <= mr * q)
                    ev["exceeds"] = bool(at([a + 1]).reach() > mr * q)
                    ev["integer"] = a == int(a)
                out.append(ev)
        return out
    den = script["den"]
    far = script["op"] == "far"
    c = make_curve(script["imps"], script["spends"], script["max"], script["kind"])
    order = [("imps", c.impressions_at_reach_quantile), ("spends", c.spend_at_reach_quantile)]
    if script["flip"]:
        order.reverse()
    for num in script["nums"]:
        for which, fn in order:
            steps = script[which]
            c.calls = 0
            ok, a = call(fn, num / float(den) if num not in (0, den) or script["kind"] == "float" else num // den)
            ev = {"ok": ok, "err": "" if ok else a, "num": num, "den": den, "max": script["max"], "which": which,
                  "same": c.max_reach == script["max"]}
            if not far:
                n = (max(steps) if steps else 0) + 1
                ev["op"] = "quantile"
                ev["curve"] = [bisect.bisect_right(steps, i) for i in range(n + 1)]
                ev["answer"] = as_int(a) if ok else 0
            else:
                ev["op"] = "far"
                ev["achievable"] = len(steps) * den > script["max"] * num
                if ok:
                    ev["integer"] = a == int(a)
                    ev["here"] = bisect.bisect_right(steps, a)
                    ev["next"] = bisect.bisect_right(steps, a + 1)
            out.append(ev)
    return out


def run(ctx):
    ctx.rule = ("every non-decreasing curve of the bounded specification at every quantile, and seeded step curves with steps "
                "up to 2^58 and Goerg curves; non-trivial: the target is achievable")
    ctx.model_check("QuantileSearch", constants={"N": ctx.pick(7, 9), "MaxDoublings": ctx.pick(3, 4)})
    gen = ctx.generate("QuantileSearchGen", constants={"N": ctx.pick(6, 8)})
    rng = ctx.rng("c12")
    by = {}
    for g in gen:
        by.setdefault((tuple(g["curve"]), g["max"]), []).append(g["num"])

    def steps(c):
        return [i for i in range(1, len(c)) for _ in range(c[i] - c[i - 1])]

    curves = sorted(by)
    scripts = []
    for c, m in curves:
        other = rng.choice(curves)[0]
        scripts.append({"op": "quantile", "imps": steps(c), "spends": steps(other), "max": m, "den": 4,
                        "nums": by[(c, m)] + [rng.choice([-1, 0, 4, 5])], "kind": rng.choice(["int", "float"]), "flip": rng.random() < 0.5})

    def far_steps():
        k = rng.choice([1, 2, 5, 40])
        if rng.random() < 0.5:
            return sorted(int(2 ** rng.uniform(0, 58)) + 1 for _ in range(k))
        base = 2 ** rng.randint(0, 57)
        return sorted(max(1, base + rng.randint(-3, 3)) for _ in range(k))

    for _ in range(ctx.pick(400, 6000)):
        a, b = far_steps(), far_steps()
        m = rng.choice([len(a), len(b), max(len(a), len(b)), rng.randint(0, 50)])
        den = rng.choice([2, 8, 64])
        scripts.append({"op": "far", "imps": a, "spends": b, "max": m, "den": den,
                        "nums": sorted(set(rng.choice([1, den - 1, rng.randint(1, den - 1)]) for _ in range(3))),
                        "kind": rng.choice(["int", "float"]), "flip": rng.random() < 0.5})
        a, b = [sorted(rng.randint(1, 60) for _ in range(rng.choice([1, 3, 12]))) for _ in range(2)]
        scripts.append({"op": "quantile", "imps": a, "spends": b, "max": rng.choice([len(a), len(b), rng.randint(0, 15)]), "den": 16,
                        "nums": [rng.randint(1, 15) for _ in range(3)] + [rng.choice([0, 16, -3, 17])],
                        "kind": rng.choice(["int", "float"]), "flip": rng.random() < 0.5})
    for _ in range(ctx.pick(100, 1500)):
        I = int(2 ** rng.uniform(1, 40))
        scripts.append({"op": "real", "I": I, "R": max(1, int(I * rng.uniform(0.01, 0.99))),
                        "cost": I * rng.choice([0.001, 0.5, 1.0, 3.7]),
                        "qs": [rng.choice([0.001, 0.1, 0.5, 0.9, 0.999]), rng.uniform(0.01, 0.99)]})
    for s in scripts:
        if s["op"] == "real" and s["R"] >= s["I"]:
            s["R"] = s["I"] - 1
    scripts = [s for s in scripts if s["op"] != "real" or s["R"] > 0]
    traces = ctx.pmap(drive, scripts, seconds=100)
    ctx.validate("QuantileSearchTrace", traces, nontrivial=lambda t: any(e["ok"] for e in t))
    ctx.assumptions = ["steps lie below 2^58, so that the limit on doublings is not in question"]
