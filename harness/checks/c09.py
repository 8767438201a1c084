"""C09: simulated Venn diagrams against VennDiagram.tla."""
from vlib import call, as_int, as_ints, BADINT, limited, Timeout
from common import PRICE_SCHEMES, USER_SCHEMES, price_table, spend_value
import halo


def drive(script):
    import numpy as np
    from wfa_cardinality_estimation_evaluation_framework import verif_probe as vp
    from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyBudget

    vp.reset()
    if script.get("many"):
        n = script["many"]
        s = dict(ds=[[{"u": 1, "p": 1}] for _ in range(n + script["idle"])], nusers=1, nprices=1,
                 schemes=["int"] * (n + script["idle"]), fractions=[1.0] * (n + script["idle"]), seed=1)
        b = halo.build(s, generator=halo.ScriptedGenerator(np.random.default_rng(1), 1, 0))
        try:
            ok, v = limited(lambda: call(b.halo.simulated_venn_diagram_reach_by_spend,
                                         [1.0] * n + [0.0] * script["idle"], PrivacyBudget(1.0, 0.0)), 4)
        except Timeout:
            ok, v = True, None
        return [{"op": "many", "n": n, "refused": not ok}]
    tr = []
    gen = halo.ScriptedGenerator(np.random.default_rng(script["seed"]))
    b = halo.build(script, generator=gen)
    for q in script["queries"]:
        vec = [0 if c == 0 else spend_value(b.tables[i], c) for i, c in enumerate(q["sp"])]
        if any(v is None or v < 0 for v in vec):
            continue
        sp = [halo.code_of(b.tables[i], v) for i, v in enumerate(vec)]
        act = [i + 1 for i, v in enumerate(vec) if v]
        reached = set()
        for i, v in enumerate(vec):
            if v:
                reached |= set(u for u, x in b.logs[i] if x <= v)
        gen.singles = min(len(reached), q["singles"]) if q["singles"] >= 0 else len(reached)
        gen.shift = q["shift"]
        gen.last.clear()
        del vp.RELEASES[:]
        noises = list(q["noise"])

        def is_card(value):  # the scripted normal draw is a float, region counts are integers
            return isinstance(value, (float, np.floating))

        def noise(kind, eps, value, uid, noises=noises):
            if is_card(value):
                return q["card_noise"]
            k = sum(1 for r in vp.RELEASES if not is_card(r["value"]))
            return noises[k % len(noises)]

        vp.SCRIPT = noise
        kw = {}
        if q["f"] != 1 or q["explicit"]:
            kw["max_frequency"] = q["f"]
        ok, pts = call(b.halo.simulated_venn_diagram_reach_by_spend, list(vec), PrivacyBudget(1.0, 1e-5), q["split"], **kw)
        ev = {"op": "venn", "ok": ok, "f": q["f"], "ds": b.enc, "sp": sp, "active": act, "singles": gen.singles,
              "released": len(vp.RELEASES), "want_universe": b.want_universe}
        if not ok:
            ev["err"] = pts
            tr.append(ev)
            continue
        ev["npoints"] = len(pts)
        rel = [r for r in vp.RELEASES if not is_card(r["value"])]
        cards = [r for r in vp.RELEASES if is_card(r["value"])]
        ev["rel"] = [{"v": as_int(r["value"]), "n": as_int(r["noise"])} for r in rel]
        ev["card"] = as_int(cards[0]["value"] + cards[0]["noise"]) if len(cards) == 1 else BADINT
        ev["loc"] = as_int(gen.last.get("loc", -1))
        total = sum(max(0, r["value"] + r["noise"]) for r in rel)
        ev["points"] = []
        for pt in pts:
            spends = list(pt.spends) if pt.spends is not None else []
            sub = [i + 1 for i, x in enumerate(spends) if x]
            w = float(pt.reach(1)) * (total if total else 1)
            n = int(round(w))
            ok, u = call(lambda: pt.universe_size)
            ev["points"].append({
                "sub": sub,
                "w": n if abs(w - n) <= 1e-6 * max(1.0, abs(w)) and abs(n) < 2**31 - 1 else BADINT,
                "spends_ok": len(spends) == len(vec) and pt.max_frequency == 1 and all(
                    (x == vec[i]) if (i + 1) in sub else x == 0 for i, x in enumerate(spends)),
                "imps": as_ints(pt.impressions), "universe": as_int(u) if ok else BADINT})
        tr.append(ev)
    vp.reset()
    return tr


def run(ctx):
    ctx.rule = ("every (data set, spends) of the bounded specification with full and partial samples and scripted noise, and "
                "seeded larger ones with up to 6 publishers; non-trivial: at least two active publishers share a user")
    ctx.model_check("MCVennDiagram")
    gen = ctx.generate("VennDiagramGen")
    rng = ctx.rng("c09")
    rng.shuffle(gen)

    def query(sp):
        k = rng.random()
        noise = [0] if k < 0.45 else [rng.choice([-2, -1, 0, 1, 3, -50]) for _ in range(rng.randint(1, 9))]
        if k > 0.95:
            noise = [-1000]
        return dict(sp=sp, singles=rng.choice([-1, -1, -1, 0, 1, 2, 5, 11]) if rng.random() < 0.9 else 3,
                    shift=rng.choice([0, 0, 2, -1, 7]), noise=noise, card_noise=rng.choice([0, 0, 1, -2, 10, -100]),
                    f=1 if rng.random() < 0.97 else rng.choice([2, 3, 10]), explicit=rng.random() < 0.5,
                    split=rng.choice([0.5, 0.1, 0.7]))

    scripts = [dict(many=n, idle=i) for n, i in ((21, 0), (22, 3), (25, 0), (20, 4))]
    for g in gen[: ctx.pick(700, len(gen))]:
        p = len(g["ds"])
        sp = [2 * x for x in g["sp"]]
        qs = [query(sp), query([x + rng.choice([0, 1]) if x else 0 for x in sp])]
        scripts.append(dict(ds=g["ds"], nusers=2, nprices=2, schemes=[rng.choice(PRICE_SCHEMES) for _ in range(p)],
                            uscheme=rng.choice(list(USER_SCHEMES)), fractions=[rng.choice([0.0, 0.5, 1.0]) for _ in range(p)],
                            universe=rng.choice([None, 7]), seed=rng.randrange(10**6), ll=[12, 1000, 1], queries=qs))
    for i in range(ctx.pick(250, 3000)):
        p = rng.choice([1, 2, 3, 4, 4, 5])
        nu = rng.choice([2, 6, 20])
        npz = rng.choice([1, 3, 8])
        ds = [[{"u": rng.randint(1, nu), "p": rng.randint(1, npz)} for _ in range(rng.choice([1, 4, 15]))] for _ in range(p)]
        qs = []
        for _ in range(3):
            qs.append(query([rng.choice([0, 2 * npz, rng.randint(1, 2 * npz + 1)]) for _ in range(p)]))
        scripts.append(dict(ds=ds, nusers=nu, nprices=npz, schemes=[rng.choice(PRICE_SCHEMES) for _ in range(p)],
                            uscheme=rng.choice(list(USER_SCHEMES)), fractions=[rng.choice([0.0, 0.5, 1.0]) for _ in range(p)],
                            universe=rng.choice([None, 77]), seed=rng.randrange(10**6), ll=[12, 2000, 1], queries=qs))
    for i in range(ctx.pick(30, 200)):  # many publishers of which few are active; large audiences
        p, nu, n = rng.choice([(9, 6, 4), (18, 6, 4), (24, 5, 3), (35, 4, 2), (70, 4, 2), (3, 300, 280)])
        npz = rng.choice([1, 3])
        ds = [[{"u": rng.randint(1, nu), "p": rng.randint(1, npz)} for _ in range(n)] for _ in range(p)]
        qs = []
        for _ in range(3):
            act = set(rng.sample(range(p), min(p, rng.choice([1, 2, 3]))) + [rng.choice([p - 1, p - 1, p // 2])])
            qs.append(query([rng.choice([2 * npz, 2 * npz + 1]) if j in act else 0 for j in range(p)]))
        scripts.append(dict(ds=ds, nusers=nu, nprices=npz, schemes=[rng.choice(PRICE_SCHEMES) for _ in range(p)],
                            uscheme=rng.choice(list(USER_SCHEMES)), fractions=[rng.choice([0.0, 0.5, 1.0]) for _ in range(p)],
                            universe=rng.choice([None, 77]), seed=rng.randrange(10**6), ll=[12, 2000, 1], queries=qs))
    traces = ctx.pmap(drive, scripts, seconds=100)

    def nt(t):
        for e in t:
            if e["op"] == "venn" and len(e.get("active", [])) > 1:
                us = [set(x["u"] for x in e["ds"][a - 1]) for a in e["active"]]
                if sum(len(u) for u in us) > len(set().union(*us)):
                    return True
        return False

    ctx.validate("VennDiagramTrace", traces, nontrivial=nt)
    ctx.assumptions = ["noise and the number of active registers are dictated through the stand-in noiser and a scripted "
                       "random generator; the sample itself is drawn by numpy",
                       "diagrams with exactly 20 active publishers are only checked for not being refused"]
