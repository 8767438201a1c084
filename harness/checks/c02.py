"""C02: DataSet reach against DataSetReach.tla."""
import os
import shutil
import tempfile

from vlib import call, as_int, as_ints, BADINT
from common import PRICE_SCHEMES, USER_SCHEMES, price_table, spend_value


def stored_names(d):
    """The names of the publishers, in order of name, as they would be stored."""
    tmp = tempfile.mkdtemp(prefix="verif_c02_")
    try:
        d.write_data_set(tmp, "x")
        return sorted(os.listdir(tmp + "/x"))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def drive(script):
    from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
    from wfa_planning_evaluation_framework.data_generators.publisher_data import (
        PublisherData,
    )

    users = USER_SCHEMES[script["uscheme"]]
    uback = {users(u): u for u in range(0, script["nusers"] + 1)}
    tables, backs, logs = [], [], []
    for i, log in enumerate(script["ds"]):
        t = price_table(script["schemes"][i], script["nprices"])
        tables.append(t)
        backs.append({float(v): 2 * (k + 1) for k, v in enumerate(t)})
        logs.append([(users(e["u"]), t[e["p"] - 1]) for e in log])
    enc = [[{"u": e["u"], "p": 2 * e["p"]} for e in log] for log in script["ds"]]
    pubs = [PublisherData(list(lg), "pub%d" % i) for i, lg in enumerate(logs)]
    # per-publisher tables by impressions, from the publishers themselves (C01)
    def pc(i, n):
        return [[uback.get(u, -1), as_int(c)] for u, c in sorted(pubs_ref[i].user_counts_by_impressions(n).items(), key=str)]

    pubs_ref = [PublisherData(list(lg), "pub%d" % i) for i, lg in enumerate(logs)]
    U = script["universe"]
    kw = {} if U < 0 else {"universe_size": U}
    name = script["name"]
    ok, d = call(DataSet, pubs, name, **kw)
    if not ok:
        return [{"op": "build", "ok": False, "err": d, "ds": enc}]
    exp_u = U if U >= 0 else 2 * len(set(u for lg in logs for u, _ in lg))
    tr = [
        {
            "op": "build", "ok": True, "ds": enc, "given_universe": U,
            "count": as_int(d.publisher_count), "pubs": sorted("pub%d" % i for i in range(len(logs))), "maximum_reach": as_int(d.maximum_reach),
            "universe": as_int(d.universe_size),
            "name_ok": (d.name == name) if name else isinstance(d.name, str) and len(d.name) > 0,
        }
    ]

    halo_obj = []

    def system():
        """The simulated system and planner on top of this data set, built when first asked."""
        if not halo_obj:
            from wfa_planning_evaluation_framework.simulator.halo_simulator import HaloSimulator
            from wfa_planning_evaluation_framework.simulator.planner_simulator import PlannerSimulator
            from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyTracker
            from wfa_planning_evaluation_framework.simulator.publisher import Publisher
            from wfa_planning_evaluation_framework.simulator.system_parameters import SystemParameters

            params = SystemParameters([[1.0, 0.5, 0.0][i % 3] for i in range(len(logs))])
            tracker = PrivacyTracker()
            halo = HaloSimulator(d, params, tracker)
            halo_obj.extend([halo, PlannerSimulator(halo, None, params, tracker), tracker,
                             [Publisher(p, i, params, tracker) for i, p in enumerate(pubs_ref)]])
        return halo_obj

    def code(i, v):
        try:
            return backs[i].get(float(v), BADINT)
        except Exception:
            return BADINT

    def isz(v):
        try:
            return bool(v == 0)
        except Exception:
            return False

    def universe(pt):
        ok, v = call(lambda: pt.universe_size)
        return as_int(v) if ok else BADINT

    def kplus(pt):
        ok, v = call(lambda: [pt.reach(k) for k in range(1, pt.max_frequency + 1)])
        return as_ints(v) if ok else [BADINT]

    for q in script["queries"]:
        op = q[0]
        if op == "poke":
            # the caller reuses its publishers
            if q[1] == 0:
                pubs.clear()
            elif q[1] == 1:
                pubs.append(PublisherData([(users(1), 1.0)], "extra"))
            elif pubs:
                pubs[q[1] % len(pubs)].name = "renamed"
                pubs.reverse()
            continue
        ev = {"op": op, "ok": True, "expect_universe": exp_u, "pubs": sorted("pub%d" % i for i in range(len(logs)))}
        if op == "meta":
            ev.update(count=as_int(d.publisher_count), maximum_reach=as_int(d.maximum_reach),
                      universe=as_int(d.universe_size), names=stored_names(d))
            tr.append(ev)
            continue
        if op == "wrong_length":
            vec = [1] * q[2]
            fn = d.reach_by_spend if q[1] == 0 else d.reach_by_impressions
            ok, v = call(fn, vec)
            ev["ok"] = ok
            ev["n"] = q[2]
            ev["err"] = "" if ok else v
            tr.append(ev)
            continue
        if op == "pub_reach":
            i, c, f = q[1:4]
            v = spend_value(tables[i], c)
            if v is None:
                continue
            ok, pt = call(lambda: system()[3][i].true_reach_by_spend(v, *((f,) if f else ())))
            ev.update(ok=ok, i=i + 1, arg=c, f=f or 1, err="" if ok else pt)
            if ok:
                ev.update(reach=kplus(pt), imps=as_ints(pt.impressions),
                          spends=[c] if pt.spends is not None and list(pt.spends) == [v] else [BADINT])
            tr.append(ev)
            continue
        arg, f = q[1], q[2]
        via = q[3] if len(q) > 3 else "data set"
        ev["arg"] = arg
        ev["f"] = f if f else 10 if via == "data set" else 1
        fk = (f,) if f else ()
        if op in ("reach_by_spend", "impressions_by_spend"):
            vec = [spend_value(tables[i], c) for i, c in enumerate(arg)]
            if any(v is None for v in vec):
                continue
            if op == "reach_by_spend":
                given = list(vec)
                if via == "data set":
                    ok, pt = call(d.reach_by_spend, vec, *fk)
                else:
                    ok, pt = call(lambda: system()[0 if via == "halo" else 1].true_reach_by_spend(vec, *fk))
                if ok:
                    ev["reach"] = kplus(pt)
                    ev["imps"] = as_ints(pt.impressions)
                    sp = pt.spends
                    ev["spends"] = (
                        arg if sp is not None and list(sp) == given and vec == given
                        else [BADINT]
                    )
                    ev["universe"] = universe(pt)
            else:
                ok, pt = call(d.impressions_by_spend, vec)
                if ok:
                    ev["val"] = as_ints(pt)
        else:
            vec = list(arg)
            if op == "reach_by_impressions":
                ok, pt = call(d.reach_by_impressions, vec, *fk)
                if ok:
                    ev["pubcounts"] = [pc(i, n) for i, n in enumerate(arg)]
                    ev["reach"] = kplus(pt)
                    ev["imps"] = as_ints(pt.impressions)
                    sp = pt.spends if pt.spends is not None else []
                    ev["spends"] = [code(i, v) for i, v in enumerate(sp)] or [BADINT] * len(arg)
                    ev["zero"] = [isz(v) for v in sp] or [False] * len(arg)
                    ev["universe"] = universe(pt)
            else:
                ok, pt = call(d.spend_by_impressions, vec)
                if ok:
                    ev["val"] = [code(i, v) for i, v in enumerate(pt)]
                    ev["zero"] = [isz(v) for v in pt]
        ev["ok"] = ok
        if not ok:
            ev["err"] = pt
        tr.append(ev)
    return tr


def wrong(rng, p):
    return [["wrong_length", k, n] for k in (0, 1) for n in (p - 1, p + 1) if n >= 0]


def run(ctx):
    ctx.rule = (
        "every two-publisher data set of the bounded specification with every spend vector, and seeded larger ones; "
        "non-trivial: at least one user is shared by two publishers or seen twice"
    )
    ctx.model_check("DataSetReach", constants={"MaxFreq": 3, "NPubs": 2})
    if ctx.thorough:
        ctx.model_check("DataSetReach", constants={"MaxLen": 1, "NPubs": 3, "Users": "{1,2,3}"})
    gen = ctx.generate("DataSetReachGen")
    gen += ctx.generate("DataSetReachGen", constants={"NPubs": 1, "MaxLen": 3})
    if ctx.thorough:
        gen += ctx.generate("DataSetReachGen", constants={"NPubs": 3, "MaxLen": 1, "Users": "{1,2,3}"})
    rng = ctx.rng("c02")
    scripts = []
    for gi, ds in enumerate(gen):
        p = len(ds)
        import itertools

        qs = []
        for c in itertools.product(range(1, 6), repeat=p):
            qs.append(["reach_by_spend", list(c), rng.choice([1, 2, 3, 4, 0])])
        for c in itertools.product(range(0, 4), repeat=p):
            qs.append(["reach_by_impressions", list(c), rng.choice([1, 2, 3, 4, 0])])
        rng.shuffle(qs)
        qs = qs[: ctx.pick(24, 200)]
        for q in qs:
            if q[0] == "reach_by_spend":
                q.append(rng.choice(["data set", "data set", "halo", "planner"]))
        i = rng.randrange(p)
        qs.append(["pub_reach", i, rng.randint(1, 5), rng.choice([1, 2, 4, 0])])
        qs.append(["impressions_by_spend", [rng.randint(1, 5) for _ in ds], 0])
        qs.append(["spend_by_impressions", [rng.randint(0, 3) for _ in ds], 0])
        qs += wrong(rng, p)
        qs.insert(rng.randrange(len(qs)), ["poke", rng.randrange(5)])
        qs.append(["meta"])
        scripts.append(dict(ds=ds, nprices=2, nusers=2 if gi < 400 else 3, uscheme=rng.choice(list(USER_SCHEMES)),
                            schemes=[rng.choice(PRICE_SCHEMES) for _ in ds],
                            universe=rng.choice([-1, -1, 0, 7, 100]), name=rng.choice([None, "ds", "a b"]), queries=qs))
    for s in scripts:
        s["nusers"] = 3
    nexh = len(scripts)
    for i in range(ctx.pick(200, 2500)):
        p = rng.choice([1, 2, 3, 3, 4, 6, 10])
        nu = rng.choice([1, 3, 8, 30])
        npz = rng.choice([1, 3, 6, 12])
        ds = []
        for _ in range(p):
            n = rng.choice([1, 2, 5, 12, 25])
            pool = rng.sample(range(1, nu + 1), rng.randint(1, nu))
            ds.append([{"u": rng.choice(pool), "p": rng.randint(1, npz)} for _ in range(n)])
        fs = [1, 2, 3, 5, 9, 15, 0]
        qs = []
        for _ in range(8):
            qs.append(["reach_by_spend", [rng.randint(1, 2 * npz + 1) for _ in ds], rng.choice(fs),
                       rng.choice(["data set", "data set", "halo", "planner"])])
            qs.append(["pub_reach", rng.randrange(p), rng.randint(1, 2 * npz + 1), rng.choice(fs)])
            qs.append(["reach_by_impressions", [rng.choice([0, 1, len(x) // 2, len(x), len(x) + 3, 11 * len(x), 10**6, 2 * 10**9]) for x in ds], rng.choice(fs)])
        # monotone chain in one coordinate and the single-publisher axes
        base = [rng.randint(1, 2 * npz + 1) for _ in ds]
        j = rng.randrange(p)
        for c in sorted(rng.sample(range(1, 2 * npz + 2), min(3, 2 * npz + 1))):
            v = list(base)
            v[j] = c
            qs.append(["reach_by_spend", v, 4])
        qs.append(["reach_by_spend", [2 * npz + 1] * p, 0])
        qs.append(["reach_by_impressions", [0] * p, 3])
        qs.append(["impressions_by_spend", [rng.randint(1, 2 * npz + 1) for _ in ds], 0])
        qs.append(["spend_by_impressions", [rng.choice([rng.randint(0, 30), 10**6]) for _ in ds], 0])
        rng.shuffle(qs)
        qs += wrong(rng, p)
        qs.insert(rng.randrange(len(qs)), ["poke", rng.randrange(5)])
        qs.append(["meta"])
        scripts.append(dict(ds=ds, nprices=npz, nusers=nu, uscheme=rng.choice(list(USER_SCHEMES)),
                            schemes=[rng.choice(PRICE_SCHEMES) for _ in ds],
                            universe=rng.choice([-1, -1, 0, 7, 100000]), name=rng.choice([None, "ds"]), queries=qs))
    for i in range(ctx.pick(10, 60)):  # many publishers, heavy users, large audiences
        p, n, nu = rng.choice([(2, 150, 1), (2, 150, 3), (3, 100, 2), (20, 20, 3), (40, 10, 1), (40, 5, 60), (2, 300, 280)])
        npz = rng.choice([1, 3, 12])
        ds = [[{"u": rng.randint(1, nu), "p": rng.randint(1, npz)} for _ in range(n)] for _ in range(p)]
        qs = []
        for _ in range(4):
            full = rng.random() < 0.5
            qs.append(["reach_by_spend", [2 * npz + 1 if full else rng.randint(1, 2 * npz + 1) for _ in ds],
                       rng.choice([1, 5, 30, 130, 270]), rng.choice(["data set", "halo", "planner"])])
            qs.append(["reach_by_impressions", [rng.choice([n, n, n // 2]) for _ in ds], rng.choice([1, 5, 30, 130, 270])])
            qs.append(["pub_reach", rng.randrange(p), 2 * npz + 1, rng.choice([1, 5, 130])])
        qs.append(["meta"])
        scripts.append(dict(ds=ds, nprices=npz, nusers=nu, uscheme=rng.choice(list(USER_SCHEMES)),
                            schemes=[rng.choice(PRICE_SCHEMES) for _ in ds],
                            universe=rng.choice([-1, 0, 100000]), name="large", queries=qs))
    traces = ctx.pmap(drive, scripts, seconds=100)

    def nontrivial(t):
        us = [e["u"] for lg in t[0]["ds"] for e in lg]
        return len(set(us)) < len(us)

    ctx.validate("DataSetReachTrace", traces, nontrivial=nontrivial)
    ctx.extra["exhaustive_scripts"] = nexh
