"""C10: HaloSimulator.simulated_reach_by_spend against SimulatedReach.tla."""
from vlib import call, as_int, as_ints, BADINT
from common import PRICE_SCHEMES, USER_SCHEMES, price_table, spend_value
import halo


def drive(script):
    from wfa_cardinality_estimation_evaluation_framework import verif_probe as vp
    from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyBudget

    vp.reset()
    b = halo.build(script)
    p = len(b.enc)
    cs = list(b.halo.campaign_spends)
    tops = [max(float(x) for _, x in lg) for lg in b.logs]
    tr = [{
        "op": "halo", "ok": True, "ds": b.enc, "count": as_int(b.halo.publisher_count),
        "campaign_ok": len(cs) == p and all(
            abs(float(c) - fr * t) <= 1e-12 * max(1.0, abs(t)) for c, fr, t in zip(cs, b.fractions, tops)),
        "max_ok": [float(x) for x in b.halo.max_spends] == tops,
    }]
    camp = [halo.code_of(b.tables[i], c) for i, c in enumerate(cs)]
    before = halo.snapshot(b.data)
    for q in script["queries"]:
        vec = []
        for i, c in enumerate(q["req"]):
            if c == "camp":
                vec.append(cs[i])
            elif c == 0:
                vec.append(0.0)
            else:
                vec.append(spend_value(b.tables[i], c))
        if any(v is None for v in vec):
            continue
        req = [halo.code_of(b.tables[i], v) for i, v in enumerate(vec)]
        f = q["f"]
        est = q["est"]
        del vp.ESTIMATES[:], vp.SKETCHES[:], vp.RELEASES[:]
        if est is not None:
            vp.ESTIMATE_SCRIPT = lambda sk, mf, est=est: [x / 10.0 if q["float"] else x // 10 for x in (est * 40)[:mf]]
        else:
            vp.ESTIMATE_SCRIPT = None
        kw = {"max_frequency": f}
        if q["split"] is not None:
            kw["privacy_budget_split"] = q["split"]
        if q["short"]:
            ok, v = call(b.halo.simulated_reach_by_spend, vec[:-1], PrivacyBudget(1.0, 1e-5), **kw)
            tr.append({"op": "short", "ok": ok, "measured": len(vp.ESTIMATES)})
            continue
        given = tuple(vec) if q["tuple"] else list(vec)
        ok, pt = call(b.halo.simulated_reach_by_spend, given, PrivacyBudget(q["eps"], 1e-5), **kw)
        ev = {"op": "measure", "ok": ok, "ds": b.enc, "req": req, "camp": camp, "f": f}
        if not ok:
            ev["err"] = pt
            tr.append(ev)
            continue
        ev["measured"] = len(vp.ESTIMATES)
        e = vp.ESTIMATES[-1] if vp.ESTIMATES else {"counts": {}, "out": []}
        ev["counts"] = [[b.uback.get(u, -1), as_int(c)] for u, c in sorted(e["counts"].items())]
        ev["est"] = []
        for x in e["out"]:
            t = float(x) * 10
            r = int(round(t))
            # the answer of an unscripted estimator may be any real: hand over its rounding
            ev["est"].append(r if est is not None else 10 * int(round(float(x))))
        ev["sketches_ok"] = bool(vp.SKETCHES) and all(
            s["length"] == int(b.ll.sketch_size) and s["decay_rate"] == b.ll.decay_rate and s["seed"] == b.ll.random_seed
            for s in vp.SKETCHES)
        ev["reach"] = as_ints([pt.reach(k) for k in range(1, pt.max_frequency + 1)])
        ev["imps"] = as_ints(pt.impressions)
        ev["spends_ok"] = pt.spends is not None and [float(x) for x in pt.spends] == [float(x) for x in vec]
        ok, u = call(lambda: pt.universe_size)
        ev["universe"] = as_int(u) if ok else BADINT
        ev["want_universe"] = b.want_universe
        ev["data_same"] = halo.snapshot(b.data) == before
        tr.append(ev)
    vp.reset()
    return tr


def run(ctx):
    ctx.rule = ("every (data set, request, campaign, cap) of the bounded specification with every kind of estimate, and "
                "seeded larger ones; non-trivial: some publisher's campaign spend limits the request, or the estimate is "
                "changed by clipping")
    ctx.model_check("MCSimulatedReach")
    gen = ctx.generate("SimulatedReachGen", constants={"Prices": "{1, 2}"} if ctx.thorough else None)
    rng = ctx.rng("c10")
    rng.shuffle(gen)

    def est(f, imps):
        k = rng.random()
        if k < 0.15:
            return None
        if k < 0.5:  # near the number of impressions
            base = imps * 10 + rng.choice([-13, -10, -3, 0, 4, 10])
            out = [base] + [rng.choice([base, base - 10, base + 20, -7, 0, 3, rng.randrange(-20, 60)]) for _ in range(f)]
            return [x + 1 if x % 10 == 5 else x for x in out]
        return [rng.choice([-31, -4, 0, 3, 8, 10, 12, 20, 27, 34, 50, 1000]) for _ in range(f + 1)]

    LL = [None, [12, 1000, 1], [10, 128, 5], [3, 17, 99]]

    def query(req, f, imps, p):
        return dict(req=req, f=f, est=est(f, imps), float=rng.random() < 0.8, short=p > 1 and rng.random() < 0.04,
                    tuple=rng.random() < 0.5, eps=rng.choice([0.1, 1.0, 20.0]), split=rng.choice([None, 0.5, 0.2, 0.9]))

    def fracs(ds, schemes, npz, codes):
        out = []
        for i, lg in enumerate(ds):
            t = price_table(schemes[i], npz)
            top = max(t[e["p"] - 1] for e in lg)
            fr = halo.fraction_for(t, top, codes[i])
            out.append(rng.choice([0.0, 0.3, 1.0]) if fr is None else fr)
        return out

    scripts = []
    for g in gen[: ctx.pick(700, 6000)]:
        p = len(g["ds"])
        npz = 2 if ctx.thorough else 1
        schemes = [rng.choice(PRICE_SCHEMES) for _ in range(p)]
        imps = sum(len([e for e in lg if e["p"] <= g["req"][i]]) for i, lg in enumerate(g["ds"]))
        req = [2 * r if rng.random() < 0.8 else 2 * r + 1 for r in g["req"]]
        scripts.append(dict(ds=g["ds"], nusers=2, nprices=npz, schemes=schemes, uscheme=rng.choice(list(USER_SCHEMES)),
                            fractions=fracs(g["ds"], schemes, npz, [2 * c for c in g["camp"]]), ll=rng.choice(LL),
                            universe=rng.choice([None, 5, 1000]), seed=rng.randrange(10**6),
                            queries=[query([min(r, 2 * npz + 1) for r in req], g["f"], imps, p) for _ in range(2)]))
    for i in range(ctx.pick(300, 4000)):
        p = rng.choice([1, 2, 3, 6])
        nu = rng.choice([1, 4, 15])
        npz = rng.choice([1, 3, 10])
        ds = [[{"u": rng.randint(1, nu), "p": rng.randint(1, npz)} for _ in range(rng.choice([1, 4, 20]))] for _ in range(p)]
        schemes = [rng.choice(PRICE_SCHEMES) for _ in range(p)]
        qs = []
        for _ in range(4):
            req = [rng.choice(["camp", 0, rng.randint(1, 2 * npz + 1)]) for _ in range(p)]
            qs.append(query(req, rng.choice([1, 2, 3, 10, 20]), rng.choice([len(x) for x in ds] + [sum(len(x) for x in ds)]), p))
        scripts.append(dict(ds=ds, nusers=nu, nprices=npz, schemes=schemes, uscheme=rng.choice(list(USER_SCHEMES)),
                            fractions=fracs(ds, schemes, npz, [rng.choice([0] + list(range(1, 2 * npz + 2))) for _ in range(p)]),
                            ll=rng.choice(LL), universe=rng.choice([None, 50, 1000]), seed=rng.randrange(10**6), queries=qs))
    for i in range(ctx.pick(12, 80)):  # many publishers, heavy users, large audiences
        p, nu, n = rng.choice([(1, 1, 300), (2, 2, 200), (2, 280, 300), (20, 5, 8), (40, 20, 3)])
        npz = rng.choice([1, 3])
        ds = [[{"u": rng.randint(1, nu), "p": rng.randint(1, npz)} for _ in range(n)] for _ in range(p)]
        schemes = [rng.choice(PRICE_SCHEMES) for _ in range(p)]
        qs = []
        for _ in range(3):
            req = [rng.choice(["camp", 2 * npz + 1, rng.randint(1, 2 * npz + 1)]) for _ in range(p)]
            qs.append(query(req, rng.choice([1, 3, 20]), n * p, p))
        scripts.append(dict(ds=ds, nusers=nu, nprices=npz, schemes=schemes, uscheme=rng.choice(list(USER_SCHEMES)),
                            fractions=fracs(ds, schemes, npz, [rng.choice([0, 2 * npz, 2 * npz + 1]) for _ in range(p)]),
                            ll=rng.choice(LL + [[11, 100001, 7]]), universe=rng.choice([None, 1000]), seed=rng.randrange(10**6), queries=qs))
    traces = ctx.pmap(drive, scripts, seconds=100)

    def nt(t):
        return any(e["op"] == "measure" and (any(r > c for r, c in zip(e["req"], e["camp"])) or
                                             [10 * x for x in e.get("reach", [])] != e.get("est")) for e in t)

    ctx.validate("SimulatedReachTrace", traces, nontrivial=nt)
    ctx.assumptions = ["sketches and the estimator of the missing cardinality-estimation library are replaced by exact "
                       "stand-ins (shims/); estimates are dictated by the scripts or drawn by the stand-in",
                       "estimates half-way between two integers are not scripted"]
