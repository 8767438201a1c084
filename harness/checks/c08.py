"""C08: privacy budget granted, spent and logged, against BudgetLedger.tla."""
import math

from vlib import call, as_int, BADINT
import halo

UNITS = [(0.125, 2.0 ** -30), (0.1, 1e-9), (math.log(3) / 7, 1e-7), (1e-3, 0.0), (1.0, 1e-12)]


def near(x, unit):
    try:
        if unit == 0:
            return 0 if x == 0 else BADINT
        v = float(x) / unit
        n = int(round(v))
        return n if abs(v - n) <= 1e-6 * max(1, abs(n)) else BADINT
    except Exception:
        return BADINT


def drive(script):
    import numpy as np
    from wfa_cardinality_estimation_evaluation_framework import verif_probe as vp
    from wfa_planning_evaluation_framework.models.goerg_model import GoergModel
    from wfa_planning_evaluation_framework.models.pairwise_union_reach_surface import PairwiseUnionReachSurface
    from wfa_planning_evaluation_framework.models.reach_curve import ReachCurve
    from wfa_planning_evaluation_framework.simulator.m3_strategy import M3Strategy
    from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyBudget, PrivacyTracker
    from wfa_planning_evaluation_framework.simulator.single_publisher_strategy import SinglePublisherStrategy

    eu, du = UNITS[script["unit"]]

    class Recording(PrivacyTracker):
        def append(self, event):
            events.append(event)
            super().append(event)

    class Curve(ReachCurve):
        def __init__(self, data, fail=0, at="fit"):
            left[0] -= 1
            self._data = data
            self._fail = fail and at
            if left[0] == 0 and at == "init":
                raise RuntimeError("planned")

        def _fit(self):
            if left[0] == 0 and self._fail == "fit":
                raise RuntimeError("planned")
            self._max_reach = 10

    class Surface:
        def __init__(self, curves, points, fail=0):
            self.fail = fail

        def _fit(self):
            if self.fail:
                raise ValueError("planned")

    events, left = [], [0]
    vp.reset()
    rs = np.random.RandomState(script["seed"])
    if script["noise"] == "wild":
        vp.SCRIPT = lambda kind, eps, value, uid: int(rs.choice([-10000, -3, -1, 0, 1, 5, 10000]))
    elif script["noise"] == "low":
        vp.SCRIPT = lambda kind, eps, value, uid: -5

    def world(p):
        """p publishers: user i of publisher i only, and one shared user"""
        ds = [[{"u": i + 1, "p": 1}, {"u": p + 1, "p": 2}, {"u": i + 1, "p": 3}] for i in range(p)]
        fr = [0.0 if (i + 1) in script["mute"] else 1.0 for i in range(p)]
        gen = halo.ScriptedGenerator(np.random.default_rng(script["seed"]), 1, 0)
        return halo.build(dict(ds=ds, nusers=p + 1, nprices=3, schemes=["int"] * p, fractions=fr, seed=1,
                               ll=[12, 1000, 1]), generator=gen, tracker=tracker)

    tracker = Recording()
    tr = [{"op": "new"}]
    for q in script["ops"]:
        op = q["op"]
        p = q["p"]
        b = world(p)
        del events[:], vp.RELEASES[:], vp.ESTIMATES[:]
        mech0 = list(tracker.mechanisms)
        num, den = q.get("s", [1, 2])
        k = q["k"]
        ev = {"op": op, "num": num, "den": den, "p": p}
        if op in ("reach", "venn"):
            be, bd = den * k, (den * 3 * k if du else 0)
        elif op in ("fit",):
            be, bd = 2 * (2 * p + 1) * k, (4 * (2 * p + 1) * k if du else 0)
        else:
            be, bd = 2 * k, (4 * k if du else 0)
        ev["b"] = {"eps": be, "del": bd}
        budget = PrivacyBudget(be * eu, bd * du)
        split = num / float(den)
        sp = [3.0] * p
        if op == "reach":
            for i in range(p):
                sp[i] = [0.0, 1.0, 3.0, 7.0][(q["pat"] >> (2 * i)) % 4]
            ok, v = call(b.halo.simulated_reach_by_spend, sp, budget, split, q["f"])
        elif op == "venn":
            a = min(q["active"], p)
            ev["active"] = a
            sp = [3.0] * a + [0.0] * (p - a)
            b.generator.singles = 1 + q["pat"] % (a + 1)
            ok, v = call(b.halo.simulated_venn_diagram_reach_by_spend, sp, budget, split)
        elif op == "true":
            ok, v = call(b.halo.true_reach_by_spend, sp, 1 + q["pat"] % 3)
        elif op == "refused":
            how = q["pat"] % 5
            if how == 0 and p > 1:
                ok, v = call(b.halo.simulated_reach_by_spend, sp[:-1], budget, split, 3)
            elif how == 1:
                ok, v = call(b.halo.simulated_venn_diagram_reach_by_spend, sp, budget, split, 2)
            elif how == 2:
                b.generator.singles = 0
                ok, v = call(b.halo.simulated_venn_diagram_reach_by_spend, sp, budget, split)
            elif how == 3:
                b = world(21)
                ok, v = call(b.halo.simulated_venn_diagram_reach_by_spend, [1.0] * 21, budget, split)
            else:
                ok, v = call(b.halo.simulated_venn_diagram_reach_by_spend, sp + [1.0], budget, split)
        elif op == "single":
            left[0] = q["fail"]
            kw = {"fail": q["fail"], "at": q["at"]}
            if q["real"]:
                st = SinglePublisherStrategy(GoergModel, {}, None, {})
            else:
                st = SinglePublisherStrategy(Curve, kw, None, {})
            ok, v = call(st.fit, b.halo, b.params, budget)
        else:
            left[0] = q["fail"]
            kw = {"fail": q["fail"], "at": q["at"]}
            if q["real"]:
                st = M3Strategy(GoergModel, {}, PairwiseUnionReachSurface, {}, q["truth"])
            else:
                st = M3Strategy(Curve, kw, Surface, {"fail": q["fail"] == 9}, q["truth"])
            ok, v = call(st.fit, b.halo, b.params, budget)
            ev["mute"] = [i for i in script["mute"] if i <= p]
            ev["asked"] = [[i for i in range(1, p + 1) if b.users(i) in e["counts"]] for e in vp.ESTIMATES]
        ev["ok"] = ok
        ev["err"] = "" if ok else v
        rel = {}
        for r in vp.RELEASES:
            role = r["role"]
            if role is None:
                role = "rest" if isinstance(r["value"], (float, np.floating)) else "main"
            dl = near(r["delta"], du) if r["role"] else -1
            # the regions of a diagram are disjoint: noising them all is one release, by however many objects
            key = (role if op == "venn" else r["uid"], near(r["epsilon"], eu), role, dl)
            rel[key] = rel.get(key, 0) + 1
        ev["rel"] = [{"eps": e, "role": ro, "del": dl, "n": n} for (_, e, ro, dl), n in rel.items()]
        ev["log"] = [{"eps": near(x.budget.epsilon, eu), "del": near(x.budget.delta, du)} for x in events]
        ok, t = call(lambda: tracker.privacy_consumption)
        ev["total"] = {"eps": near(t.epsilon, eu), "del": near(t.delta, du)} if ok else {"eps": BADINT, "del": BADINT}
        m = list(tracker.mechanisms)
        ev["kept"] = len(m) == len(mech0) + len(events) and m[: len(mech0)] == mech0
        tr.append(ev)
    vp.reset()
    return tr


def run(ctx):
    ctx.rule = ("every pair of operations of the specification (queries, fits, refusals) and seeded longer histories over up "
                "to 8 publishers, under drawn, extreme and negative noise; non-trivial: something is released")
    ctx.model_check("MCBudgetLedger")
    gen = ctx.generate("BudgetLedgerGen")
    rng = ctx.rng("c08")
    rng.shuffle(gen)

    def fill(o):
        o = dict(o)
        if o["op"] in ("reach", "venn"):
            o["p"] = max(1, o.get("active", 1)) if o["op"] == "venn" else rng.choice([1, 2, 3, 5])
        elif o["op"] == "single":
            o["p"] = rng.choice([1, 1, 1, 2, 3])
        elif o["op"] != "fit":
            o["p"] = rng.choice([1, 2, 3])
        if o["op"] == "refused" and o["p"] == 1 and rng.random() < 0.5:
            o["p"] = 2
        o["pat"] = rng.randrange(4 ** 5)
        if o["op"] == "refused" and o["pat"] % 5 == 0 and o["p"] == 1:
            o["pat"] += 1
        o["f"] = rng.choice([1, 1, 2, 5, 10])
        o["fail"] = rng.choice([0, 0, 0, 1, 2, 9])
        o["at"] = rng.choice(["init", "fit"])
        o["real"] = rng.random() < 0.2
        o["truth"] = rng.random() < 0.25
        return o

    def script(ops, mute=()):
        return dict(ops=ops, unit=rng.randrange(len(UNITS)), seed=rng.randrange(10**6), mute=list(mute),
                    noise=rng.choice(["drawn", "wild", "low"]))

    scripts = [script([fill(o) for o in h]) for h in gen[: ctx.pick(900, len(gen))]]
    for i in range(ctx.pick(250, 3000)):
        ops = []
        for _ in range(rng.randint(1, 5)):
            op = rng.choice(["reach", "venn", "fit", "single", "true", "refused"])
            o = {"op": op, "k": rng.choice([1, 2, 3, 10])}
            if op in ("reach", "venn"):
                den = rng.choice([1, 2, 4, 5, 10])
                o["s"] = [rng.randint(0, den), den]
                o["active"] = rng.choice([0, 1, 2, 3, 4])
            if op == "fit":
                o["p"] = rng.choice([1, 2, 3, 4, 5, 6, 8])
            ops.append(fill(o))
        scripts.append(script(ops, mute=rng.choice([[], [], [1], [2, 3]])))
    traces = ctx.pmap(drive, scripts, seconds=100)
    ctx.validate("BudgetLedgerTrace", traces, nontrivial=lambda t: any(e.get("rel") for e in t))
    ctx.assumptions = ["the noise actually applied is observed in the stand-in noisers of shims/; the pure-epsilon noiser of "
                       "the Venn diagram has no delta, so delta is compared in the log only",
                       "budgets are compared as multiples of a unit with relative tolerance 1e-6"]
