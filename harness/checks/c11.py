"""C11: single-publisher reach curves against ReachCurve.tla."""
from vlib import call, limited, Timeout, as_int, as_ints, scaled, BADINT, MachineryError

TRAINED = ("goerg", "gamma_poisson", "gamma_poisson_n", "kinflated", "dirac")


def make(kind, pt, script):
    from wfa_planning_evaluation_framework.models.goerg_model import GoergModel
    from wfa_planning_evaluation_framework.models.gamma_poisson_model import GammaPoissonModel
    from wfa_planning_evaluation_framework.models.kinflated_gamma_poisson_model import KInflatedGammaPoissonModel
    from wfa_planning_evaluation_framework.models.dirac_mixture_single_publisher_model import (
        DiracMixtureSinglePublisherModel,
    )

    x = script.get("extrapolation")
    kw = {} if x is None else {"extrapolation_multiplier": x}
    if kind == "goerg":
        return GoergModel(pt)
    if kind == "gamma_poisson":
        return GammaPoissonModel(pt, **kw)
    if kind == "gamma_poisson_n":
        return GammaPoissonModel(pt, max_reach=script["audience"], **kw)
    if kind == "kinflated":
        return KInflatedGammaPoissonModel(pt, kmax=script.get("kmax", 2), **kw)
    return DiracMixtureSinglePublisherModel(pt, ncomponents=script.get("ncomponents", 30))


def quick_optimizer(limit):
    """Optional: shorter optimiser runs give other, coarser but admissible fits."""
    import scipy.optimize as so

    if getattr(so, "_verif_minimize", None) is None:
        so._verif_minimize = so.minimize
    if limit is None:
        so.minimize = so._verif_minimize
        return

    def minimize(fun, x0, *a, **kw):
        o = dict(kw.pop("options", None) or {})
        o["maxiter"] = limit
        return so._verif_minimize(fun, x0, *a, options=o, **kw)

    so.minimize = minimize


def point(script, spends=True):
    from wfa_planning_evaluation_framework.models.reach_point import ReachPoint

    kw = {"universe_size": script["universe"]}
    if script.get("cost") is not None:
        return ReachPoint([script["I"]], script["r"], [script["cost"]], **kw)
    return ReachPoint([script["I"]], script["r"], **kw)


def drive(script):
    op = script["op"]
    if op == "truth":
        return truth(script)
    if op == "refuse":
        return refuse(script)
    if op == "goerg":
        return goerg(script)
    return curve(script)


def refuse(script):
    make("goerg", [point({"universe": 9, "I": 3, "r": [2]})], {})
    from wfa_planning_evaluation_framework.models.reach_point import ReachPoint

    out = []
    for kind in TRAINED:
        for case in script["cases"]:
            pts = [ReachPoint(c["imps"], c["r"], c.get("spends"), universe_size=1000) for c in case["points"]]
            ok, v = call(make, kind, pts, {"audience": 500})
            adm = case["admissible"]
            if case.get("equal"):  # reach equals impressions: only the exponential model cannot be fitted
                adm = kind != "goerg"
            out.append({"op": "train", "model": kind, "case": case["name"], "admissible": adm, "ok": ok, "err": "" if ok else v})
    return out


def goerg(script):
    from wfa_planning_evaluation_framework.models.reach_point import ReachPoint
    from wfa_planning_evaluation_framework.models.goerg_model import GoergModel

    I, R = script["I"], script["R"]
    m = GoergModel([ReachPoint([I], [R] + script["rest"])])
    out = []
    for i, f in script["queries"]:
        ok, p = call(m.by_impressions, [i], f)
        if ok:
            milli = [scaled(p.reach(k), 1000) for k in range(1, p.max_frequency + 1)]
        out.append({"op": "goerg", "I": I, "R": R, "i": i, "f": f, "ok": ok, "milli": milli if ok else [],
                    "max": scaled(m.max_reach, 1000)})
    return out


def curve(script):
    import random

    rng = random.Random(script["seed"])
    kind = script["model"]
    quick_optimizer(script.get("maxiter"))
    try:
        m = make(kind, [point(script)], script)
        if kind != "goerg":
            try:
                ok, v = limited(lambda: call(m._fit), script["patience"])
            except Timeout:
                ok, v = False, "too slow for this tier"
            if not ok:
                # the optimiser may give up on a training point; then there is no fitted curve
                return [{"op": "train", "model": kind, "case": "fit-gave-up", "admissible": True, "ok": True, "err": v}]
    finally:
        quick_optimizer(None)
    I, U = script["I"], script["universe"]
    if kind == "dirac":
        top, unit, tol = U, 1.0, 1
        bounded, full = False, 0
    else:
        top, unit, tol = 10**6, float(m.max_reach) / 10**6, 2
        bounded, full = True, 1000
    f = script["f"]
    cheap = 3 if kind.startswith("gamma") else 1
    imps = sorted(set([0, 1] + [max(0, int(round(I * x))) for x in script["grid"]]))
    imps = [i for i in imps if i / unit < 2e9]

    def row(i, n, fn=None):
        p = (fn or m.by_impressions)([i], n)
        return [scaled(p.reach(k), 1.0 / unit) for k in range(1, p.max_frequency + 1)], p

    def observe():
        rows, carried, total = [], True, []
        summed = imps[2::3]
        for i in imps:
            r, p = row(i, f)
            rows.append(r)
            carried = carried and list(p.impressions) == [i]
            if script.get("cost") is None:
                carried = carried and p.spends is None
            else:
                want = i * (script["cost"] / I)
                if want > 0:
                    carried = carried and p.spends is not None and abs(float(p.spends[0]) - want) <= 1e-9 * want
            if full and script["sums"] and i in summed:
                q = m.by_impressions([i], full)
                total.append(scaled(sum(float(q.reach(k)) for k in range(1, q.max_frequency + 1)), 1.0 / unit))
        inv, sums = -1, bool(full and script["sums"])
        if sums and kind != "goerg":
            q = m.by_impressions([10**12], full)
            inv = scaled(sum(float(q.reach(k)) for k in range(1, q.max_frequency + 1)), 1.0 / unit)
            # inventories with visible mass near the computational limit lose impressions there
            sums = scaled(q.reach(900), 1.0 / unit) == 0 or kind == "kinflated"
        if sums and kind == "goerg":
            sums = max(imps) <= 50 * float(m.max_reach)
        short = [row(i, max(1, f - 2))[0] if j % cheap == 0 else [] for j, i in enumerate(imps)]
        order = list(range(len(imps)))
        rng.shuffle(order)
        rep = all(row(imps[j], f)[0] == rows[j] for j in order[:3])
        return {"op": "curve", "model": kind, "ok": True, "err": "", "I": I, "r1": script["r"][0], "f": f,
                "imps": [scaled(i, 1.0 / unit) for i in imps], "row": rows, "top": top, "tol": tol,
                "budget": bounded, "sums": sums, "summed": [scaled(i, 1.0 / unit) for i in summed] if sums else [],
                "total": total if sums else [], "inv": inv,
                "carried": bool(carried), "short": short, "repeat": bool(rep)}

    ok, ev = call(observe)
    if not ok:
        return [{"op": "curve", "model": kind, "ok": False, "err": ev, "I": I, "r": script["r"]}]
    out = [ev]
    for vec in ([], [1, 1]):
        for fn in (m.by_impressions, m.by_spend):
            ok, v = call(fn, vec)
            out.append({"op": "badquery", "model": kind, "n": len(vec), "ok": ok, "err": "" if ok else v})
    cost = script.get("cost")
    for x in script["spends"]:
        base = cost if cost else 3.0
        s = x * base
        ok, p = call(m.by_spend, [s], f)
        e = {"op": "spend", "model": kind, "priced": bool(cost), "ok": ok, "err": "" if ok else p, "tol": tol}
        if ok and cost:
            e["row"] = [scaled(p.reach(k), 1.0 / unit) for k in range(1, p.max_frequency + 1)]
            i = s / (cost / I)
            e["byimps"] = row(i, f)[0]
            e["carried"] = bool(s == 0 or (p.spends is not None and abs(float(p.spends[0]) - s) <= 1e-9 * s))
            e["conv"] = abs(float(m.impressions_for_spend(s)) - i) <= 1e-9 * max(1.0, i)
        out.append(e)
    return out


def truth(script):
    from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
    from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
    from wfa_planning_evaluation_framework.models.ground_truth_reach_curve_model import GroundTruthReachCurveModel

    import random

    rng = random.Random(script["seed"])
    pubs = []
    for n, shown in enumerate(script["logs"]):
        ev = [(u, 0.5 * (j + 1)) for j, u in enumerate(shown)]
        rng.shuffle(ev)
        pubs.append(PublisherData(ev, "p%d" % n))
    ds = DataSet(pubs, "d")
    out = []
    for n, shown in enumerate(script["logs"]):
        m = GroundTruthReachCurveModel(ds, n)
        for i in range(len(shown) + 2):
            for by in ("imps", "spend"):
                f = rng.choice([1, 2, 4])
                ok, p = call(m.by_impressions, [i], f) if by == "imps" else call(m.by_spend, [0.5 * i + rng.choice([0, 0.25])], f)
                ev = {"op": "truth", "by": by, "shown": shown, "i": i, "f": f, "ok": ok}
                if ok:
                    ev["row"] = as_ints([p.reach(k) for k in range(1, p.max_frequency + 1)])
                    ev["max"] = as_int(m.max_reach)
                    want = [0] * len(pubs)
                    want[n] = min(i, len(shown))
                    got = as_ints(p.impressions)
                    if by == "imps" and i > len(shown):
                        want[n] = got[n] if n < len(got) and got[n] in (i, len(shown)) else want[n]
                    ev["carried"] = got == want
                    if by == "spend":
                        ev["carried"] = ev["carried"] and as_int(m.impressions_for_spend(0.5 * i)) == min(i, len(shown))
                out.append(ev)
        for vec in ([], [1, 1]):
            for fn in (m.by_impressions, m.by_spend):
                ok, v = call(fn, vec)
                out.append({"op": "badquery", "model": "truth", "n": len(vec), "ok": ok, "err": "" if ok else v})
    return out


def run(ctx):
    ctx.rule = ("audience histories and training points of the bounded specification, seeded training points over six orders "
                "of magnitude for every model; non-trivial: a fitted curve with positive reach, or a true curve of at least "
                "two users")
    ctx.model_check("ReachCurve")
    gen = ctx.generate("ReachCurveGen")
    rng = ctx.rng("c11")
    rng.shuffle(gen)
    scripts = [{"op": "refuse", "cases": [
        {"name": "none", "points": [], "admissible": False},
        {"name": "zero-impressions", "points": [{"imps": [0], "r": [0]}], "admissible": False},
        {"name": "two-points", "points": [{"imps": [9], "r": [5]}, {"imps": [12], "r": [6]}], "admissible": False},
        {"name": "two-publishers", "points": [{"imps": [9, 9], "r": [5]}], "admissible": False},
        {"name": "two-publishers-priced", "points": [{"imps": [9, 9], "r": [5, 3], "spends": [1.0, 2.0]}], "admissible": False},
        {"name": "more-reach-than-impressions", "points": [{"imps": [9], "r": [10]}], "admissible": False},
        {"name": "equal", "points": [{"imps": [9], "r": [9, 0]}], "admissible": True, "equal": True},
        {"name": "fine", "points": [{"imps": [9], "r": [5, 2]}], "admissible": True},
        {"name": "fine-priced", "points": [{"imps": [9], "r": [5, 2], "spends": [4.5]}], "admissible": True},
    ]}]
    # real audiences
    seen = set()
    for g in gen:
        k = tuple(g["shown"])
        if not k or k in seen:
            continue
        seen.add(k)
        other = [rng.randint(1, 3) for _ in range(rng.randint(1, 4))]
        logs = [list(k), other] if rng.random() < 0.7 else [other, list(k), [1]]
        scripts.append({"op": "truth", "logs": logs, "seed": rng.randrange(10**6)})
    for _ in range(ctx.pick(20, 300)):
        nu = rng.choice([1, 3, 10])
        scripts.append({"op": "truth", "seed": rng.randrange(10**6),
                        "logs": [[rng.randint(1, nu) for _ in range(rng.choice([1, 5, 15]))] for _ in range(rng.choice([1, 2, 4]))]})
    # the closed form
    trains = sorted(set(tuple(g["train"]) for g in gen if g["train"][1] < g["train"][0]))
    trains += [(i, r) for i in (7, 12, 30) for r in (1, i // 2, i - 1)]
    for I, R in trains:
        qs = [(0, 3), (I, 1), (I, 4)] + [(rng.randint(0, 40), rng.choice([1, 2, 5])) for _ in range(6)]
        scripts.append({"op": "goerg", "I": I, "R": R, "rest": [0] * rng.choice([0, 1]), "queries": qs})
    # fitted curves
    def training(small=False):
        n = rng.choice([3, 10, 37, 80] if small else [3, 10, 37, 200, 1000, 5000])
        style = rng.random()
        mean = rng.choice([1.2, 2, 3] if small else [1.2, 2, 5, 15])
        if style < 0.6:
            cs = [1 + int(rng.expovariate(1.0 / (mean - 1))) for _ in range(n)]
        elif style < 0.8:
            cs = [1 + min(60, int(rng.paretovariate(1.2))) for _ in range(n)]
        else:
            cs = [rng.choice([1, 1, 1, int(mean) + 1]) for _ in range(n)]
        if sum(cs) <= n + 1:
            cs[0] += 3
        F = rng.choice([1, 2, 3, 5, 10])
        r = [sum(1 for c in cs if c >= k) for k in range(1, F + 1)]
        if rng.random() < 0.3:
            r = [float(x) for x in r]
        return {"I": sum(cs), "r": r, "n": n, "universe": n * rng.choice([2, 3, 10])}

    def fitted(model, **kw):
        t = training(model == "gamma_poisson" and not ctx.thorough)
        s = dict(op="curve", patience=ctx.pick(20, 400), model=model, f=rng.choice([1, 3, 4, 6]), seed=rng.randrange(10**6), sums=True,
                 cost=rng.choice([None, float(t["I"]), 0.5 * t["I"], 100.0, 7.3]), spends=[0.0, 0.3, 1.0, 2.5],
                 grid=[0.1, 0.5, 0.9, 1, 1.1, 2, 5, 20] if rng.random() < 0.7 else [rng.uniform(0, 3) for _ in range(8)],
                 I=t["I"], r=t["r"], universe=t["universe"])
        s["audience"] = t["n"] * rng.choice([1.2, 2, 6])
        s.update(kw)
        return s

    slow = []
    for _ in range(ctx.pick(8, 60)):
        slow.append(fitted("gamma_poisson", maxiter=rng.choice([1, 2, 4])))
    for _ in range(ctx.pick(30, 300)):
        scripts.append(fitted("goerg"))
    for _ in range(ctx.pick(24, 200)):
        scripts.append(fitted("dirac", ncomponents=rng.choice([5, 20, 60])))
    for _ in range(ctx.pick(16, 160)):
        slow.append(fitted("kinflated", kmax=rng.choice([0, 1, 3]), maxiter=rng.choice([20, 60, 150, 300]),
                           extrapolation=rng.choice([None, 2.0])))
    for _ in range(ctx.pick(10, 80)):
        slow.append(fitted("gamma_poisson_n", maxiter=rng.choice([0, 3, 10]), extrapolation=rng.choice([None, 2.0])))
    if ctx.thorough:
        for _ in range(16):
            slow.append(fitted("gamma_poisson"))
            slow.append(fitted("kinflated", kmax=10))
    drive({"op": "refuse", "cases": []})  # import before forking
    traces = ctx.pmap(drive, slow, seconds=250, maxtasks=50)
    ctx.log("%d slow fits done" % len(slow))
    traces += ctx.pmap(drive, scripts, seconds=250)
    ctx.log("%d other scripts done" % len(scripts))

    def nt(t):
        return any(e["op"] in ("curve", "goerg") or (e["op"] == "truth" and len(set(e["shown"])) > 1) for e in t)

    ctx.validate("ReachCurveTrace", traces, nontrivial=nt)
    gave_up = sum(1 for t in traces if t and t[0].get("case") == "fit-gave-up")
    ctx.extra["fits"] = {k: sum(1 for t in traces if t and t[0].get("op") == "curve" and t[0].get("model") == k) for k in TRAINED}
    ctx.extra["optimiser_gave_up"] = gave_up
    ctx.log("fitted curves per model %s, optimiser gave up on %d" % (ctx.extra["fits"], gave_up))
    if not all(ctx.extra["fits"][k] for k in TRAINED if k != "gamma_poisson") and not ctx.violations:
        raise MachineryError("no fitted curve was observed for some model: %s" % ctx.extra["fits"])
    ctx.assumptions = ["curves are sampled on grids of impressions; reach is compared in millionths of the maximum reach",
                       "where noted in the script the optimiser is given fewer iterations, which only changes which admissible "
                       "parameters are fitted"]
