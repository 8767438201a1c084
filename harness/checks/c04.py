"""C04: overlap data sets against Overlap.tla."""
import os
import shutil
import tempfile

from vlib import call, as_int, as_ints, BADINT
from common import PRICE_SCHEMES, USER_SCHEMES, price_table, spend_value


def read_files(d, name):
    """publisher name -> list of (id, price), straight from the stored text"""
    root = os.path.join(d, name)
    out = {}
    for fn in sorted(os.listdir(root)):
        ev = []
        with open(os.path.join(root, fn)) as f:
            for line in f:
                a, b = line.strip().split(",")
                ev.append((int(a), float(b)))
        out[fn] = ev
    return out


def build_pubs(script):
    from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData

    users = USER_SCHEMES[script["uscheme"]]
    tables, logs, pubs = [], [], []
    for i, log in enumerate(script["ds"]):
        t = price_table(script["schemes"][i], script["nprices"])
        tables.append(t)
        logs.append([(users(e["u"]), t[e["p"] - 1]) for e in log])
        pubs.append(PublisherData(list(logs[-1]), script["names"][i]))
    return users, tables, logs, pubs


def snapshot(pubs):
    return [
        (p.name, p.max_reach, p.max_spend, p.max_impressions,
         [sorted(p.user_counts_by_impressions(k).items()) for k in range(p.max_impressions + 1)])
        for p in pubs
    ]


def drive(script):
    from wfa_planning_evaluation_framework.data_generators import overlap_data_set as ods
    from wfa_planning_evaluation_framework.data_generators.independent_overlap_data_set import IndependentOverlapDataSet
    from wfa_planning_evaluation_framework.data_generators.sequentially_correlated_overlap_data_set import (
        SequentiallyCorrelatedOverlapDataSet, OrderOptions, CorrelatedSetsOptions,
    )
    from wfa_cardinality_estimation_evaluation_framework.simulations import set_generator as sg
    import numpy as np

    users, tables, logs, pubs = build_pubs(script)
    enc = [[{"u": e["u"], "p": 2 * e["p"]} for e in log] for log in script["ds"]]
    before = snapshot(pubs)
    names = script["names"]
    kind = script["kind"]
    tmp = tempfile.mkdtemp(prefix="verif_c04_")
    tr = []
    try:
        asked = []

        def make(seed):
            del sg.GENERATED[:], sg.CREATED[:]
            np.random.seed(script["noise"] + len(asked))
            np.random.rand(3)
            if kind == "given":
                def gen(set_sizes, **kw):
                    asked.append((list(set_sizes), dict(kw)))
                    return iter([np.array(x) if script["np"] else list(x) for x in script["ids"]])

                return ods.OverlapDataSet(pubs, gen, {"note": 7}, "overlap set"), script["ids"]
            rng = np.random.default_rng(seed)
            for _ in range(script["draws"]):
                rng.random()
            if kind == "independent":
                kw = {} if script["defname"] else {"name": "overlap set"}
                d = IndependentOverlapDataSet(pubs, universe_size=script["universe"], random_generator=rng, **kw)
            else:
                kw = {} if script["defname"] else {"name": "overlap set"}
                o, c = script["order"], script["corr"]
                if script["enum"]:
                    o, c = OrderOptions[o], CorrelatedSetsOptions[c]
                if not script["nogen"]:
                    kw["random_generator"] = rng
                d = SequentiallyCorrelatedOverlapDataSet(
                    pubs, order=o, correlated_sets=c, shared_prop=script["prop"], **kw
                )
            return d, [list(x) for x in sg.GENERATED]

        ok, val = call(make, script["seed"])
        ev = {"op": "overlap", "ok": ok, "ds": enc, "want_names": sorted(names), "f": 4,
              "sizes_ok": script.get("sizes_ok", True)}
        if not ok:
            ev["err"] = val
            return [ev]
        d, ids = val
        want = {"given": "overlap set", "independent": "independent", "sequential": "sequentially_correlated"}[kind]
        if not script.get("defname"):
            want = "overlap set"
        ev["name_ok"] = d.name == want
        ev["count"] = as_int(d.publisher_count)
        ev["ids"] = [as_ints(x) for x in ids]
        if kind == "given":
            ev["sizes"] = as_ints(asked[-1][0])
        else:
            ev["sizes"] = as_ints(sg.CREATED[-1][1]["set_sizes"])
        d.write_data_set(tmp, "x1")
        files = read_files(tmp, "x1")
        ev["names"] = sorted(files)
        out = []
        for i, nm in enumerate(names):
            back = {float(v): 2 * (k + 1) for k, v in enumerate(tables[i])}
            out.append([{"u": as_int(u), "p": back.get(p, BADINT)} for u, p in files.get(nm, [])])
        ev["out"] = out
        ev["maximum_reach"] = as_int(d.maximum_reach)
        curve = []
        p = len(pubs)
        for i in range(p):
            for code in script["codes"]:
                x = spend_value(tables[i], code)
                if x is None or x < 0:
                    continue
                vec = [-1.0] * p
                vec[i] = x
                pt = d.reach_by_spend(vec, 4)
                curve.append({"i": i + 1, "s": code, "reach": as_ints([pt.reach(k) for k in range(1, pt.max_frequency + 1)]),
                              "imps": as_int(pt.impressions[i])})
        ev["curve"] = curve
        ev["source_same"] = snapshot(pubs) == before
        tr.append(ev)
        if kind == "given":
            tr.append({"op": "settings", "ok": True, "got": sorted(asked[-1][1].items()) == [("note", 7)], "want": True})
        else:
            c = sg.CREATED[-1]
            if kind == "independent":
                want = {"kind": "independent", "universe": script["universe"]}
                got = {"kind": c[0], "universe": as_int(c[1].get("universe_size", -1))}
            else:
                want = {"kind": "sequential", "order": script["order"], "corr": script["corr"], "prop": int(script["prop"] * 100)}
                val_ = lambda v: getattr(v, "value", v)
                got = {"kind": c[0], "order": str(val_(c[1].get("order"))), "corr": str(val_(c[1].get("correlated_sets"))),
                       "prop": int(round(c[1].get("shared_prop", -1) * 100))}
            tr.append({"op": "settings", "ok": True, "got": got, "want": want})
            ok, val = call(make, script["seed"])
            same = False
            if ok:
                val[0].write_data_set(tmp, "x2")
                same = read_files(tmp, "x2") == files
            tr.append({"op": "repeat", "ok": ok, "err": "" if ok else val, "same": same})
            if script["vary"]:
                seen = set()
                for s in range(6):
                    ok, val = call(make, 1000 + s)
                    seen.add(repr(val[1]) if ok else "failed")
                tr.append({"op": "vary", "ok": True, "differ": len(seen) > 1})
        return tr
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(ctx):
    ctx.rule = ("every pair of logs with every generated pair of id sets of the bounded specification, and seeded larger "
                "publishers under given, independent and sequentially correlated generators; non-trivial: some id is "
                "generated for two publishers")
    ctx.model_check("Overlap")
    gen = ctx.generate("OverlapGen")
    rng = ctx.rng("c04")
    rng.shuffle(gen)
    scripts = []
    for g in gen[: ctx.pick(500, len(gen))]:
        ids = [list(x) for x in g["ids"]]
        for x in ids:
            rng.shuffle(x)
        ok = True
        if rng.random() < 0.08:
            k = rng.randrange(len(ids))
            if rng.random() < 0.5:
                ids[k] = ids[k] + [77]
            else:
                ids[k] = ids[k][:-1]
            ok = False
        scripts.append(dict(kind="given", ds=g["ds"], ids=ids, sizes_ok=ok, np=rng.random() < 0.5, nprices=2,
                            uscheme=rng.choice(list(USER_SCHEMES)), schemes=[rng.choice(PRICE_SCHEMES) for _ in g["ds"]],
                            names=["b pub", "a"], noise=rng.randrange(10**6), seed=1, draws=0, codes=[1, 2, 3, 4, 5]))
    for i in range(ctx.pick(250, 3000)):
        p = rng.choice([1, 2, 3, 5])
        npz = rng.choice([1, 3, 8])
        ds = []
        for _ in range(p):
            nu = rng.choice([1, 2, 5, 12])
            n = rng.choice([1, 3, 10, 25])
            ds.append([{"u": rng.randint(1, nu), "p": rng.randint(1, npz)} for _ in range(n)])
        sizes = [len(set(e["u"] for e in lg)) for lg in ds]
        kind = rng.choice(["given", "independent", "sequential"])
        lo = rng.choice([100, 100, 0, -7, 10**6 - 3, 2**20, 2 * 10**9])
        step = rng.choice([1, 1, 7, 4096]) if lo < 10**9 else 1
        pool = [lo + step * k for k in range(max(sizes) + rng.choice([0, 3, 20]))]
        ids = [rng.sample(pool, n) for n in sizes]
        ok = True
        if kind == "given" and rng.random() < 0.1:
            k = rng.randrange(p)
            ids[k] = ids[k] + [5555] if rng.random() < 0.5 else ids[k][:-1]
            ok = False
        scripts.append(dict(
            kind=kind, ds=ds, ids=ids, sizes_ok=ok, np=rng.random() < 0.5, nprices=npz,
            uscheme=rng.choice(list(USER_SCHEMES)), schemes=[rng.choice(PRICE_SCHEMES) for _ in ds],
            names=rng.sample(["p%d" % k for k in range(9)] + ["10", "9", "z z"], p), noise=rng.randrange(10**6),
            seed=rng.randrange(1000), draws=rng.randrange(3), codes=rng.sample(range(1, 2 * npz + 2), min(6, 2 * npz + 1)),
            universe=max(sizes) + rng.choice([0, 1, 10, 500]), order=rng.choice(["original", "reversed", "random"]),
            corr=rng.choice(["all", "one"]), prop=rng.choice([0.0, 0.25, 0.5, 1.0]), enum=rng.random() < 0.5,
            nogen=rng.random() < 0.15, defname=kind != "given" and rng.random() < 0.5, vary=False))
        s = scripts[-1]
        if kind == "independent":
            s["vary"] = max(sizes) >= 5 and s["universe"] >= 12
        elif kind == "sequential":
            s["vary"] = not s["nogen"] and max(sizes) >= 5
    traces = ctx.pmap(drive, scripts, seconds=100)

    def nt(t):
        e = t[0]
        if not e.get("ids"):
            return False
        flat = [x for s in e["ids"] for x in s]
        return len(set(flat)) < len(flat)

    ctx.validate("OverlapTrace", traces, nontrivial=nt)
    ctx.assumptions = ["the set generators of the missing cardinality-estimation library are replaced by the stand-ins in "
                       "shims/; what is judged is how the code under test uses what they generate"]
