"""C19: test point strategies against TestPoints.tla."""
import copy
import hashlib
import json
import random as pyrandom

from vlib import call

STRATEGY = {"grid": "grid", "uniform": "uniformly_random", "latin": "latin_hypercube"}


def fast_distances():
    """pyDOE computes pairwise distances with interpreted loops; same values, faster."""
    try:
        import numpy as np
        import pyDOE.doe_lhs as lhs
        from scipy.spatial.distance import pdist

        if hasattr(lhs, "_pdist"):
            lhs._pdist = lambda x: pdist(np.atleast_2d(x))
    except ImportError:
        pass


def cell(x, top, n):
    """1-based cell of x among n equal slices of [0, top]; slack at the borders."""
    v = x / top * n
    return min(n, int(v) + 1)


def drive(script):
    import numpy as np
    from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
    from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
    from wfa_planning_evaluation_framework.driver.experiment_parameters import ExperimentParameters
    from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyBudget

    fast_distances()
    out = [{"op": "reset"}]
    p, strat, size = script["p"], script["strategy"], script["size"]
    tops = script["tops"]
    ds = DataSet([PublisherData([(u, t * f) for u, f in ((1, 0.25), (2, 1.0), (3, 0.5))], "p%d" % i)
                  for i, t in enumerate(tops)], "ds")
    kwargs = {"grid_size": size} if strat == "grid" else {"npoints": size}
    npub, perpub = 1, 100
    if strat != "grid":
        if script["npub"] is not None:
            kwargs["npublishers"] = npub = script["npub"]
        if script["perpub"] is not None:
            kwargs["minimum_points_per_publisher"] = perpub = script["perpub"]
        if script["defaultn"]:
            del kwargs["npoints"]
            size = 100
    given = copy.deepcopy(kwargs)
    par = ExperimentParameters(PrivacyBudget(1.0, 1e-5), 1, 3, STRATEGY[strat], kwargs)
    seeds = script["seeds"]
    jitter = pyrandom.Random(script["jitter"])

    def stir():
        np.random.seed(jitter.randrange(2**31))
        np.random.random(jitter.randint(0, 5))
        pyrandom.random()

    def make(rng, lazy):
        pts = []
        state = json.dumps(rng.bit_generator.state, sort_keys=True, default=str)
        it = iter(par.generate_test_points(ds, rng))
        for q in it:
            pts.append([float(x) for x in q])
            if lazy and len(pts) % 7 == 1:
                stir()
            if len(pts) > 20000:
                break
        return state, pts

    live = np.random.default_rng(seeds[0])
    for step in script["log"]:
        if step == "global":
            stir()
            continue
        if step == "lazy":
            rng, lazy = live, True  # the same source, further on
        else:
            rng, lazy = np.random.default_rng(seeds[int(step[4:])]), jitter.random() < 0.5
        if strat == "latin" and size > 500:
            lazy = False
        ok, v = call(make, rng, lazy)
        degenerate = any(t <= 0 for t in tops)
        ev = {"op": "points", "ok": ok, "err": "" if ok else v, "p": p, "strategy": strat, "size": size, "npub": npub,
              "perpub": perpub, "degenerate": degenerate, "cells": [], "quarters": []}
        if ok:
            state, pts = v
            ev["lens"] = [len(q) for q in pts]
            right = all(len(q) == p for q in pts)
            ev["inbox"] = bool(right and all(0 <= x <= t for q in pts for x, t in zip(q, tops)))
            ev["kept"] = bool(kwargs == given and par.test_point_strategy_kwargs == given
                              and [q.max_spend for q in ds._data] == list(tops) and ds.publisher_count == p)
            if right and not degenerate:
                if strat == "grid":
                    ev["cells"] = []
                    for q in pts:
                        row = []
                        for x, t in zip(q, tops):
                            c = x / t * (size + 1)
                            row.append(int(round(c)) if abs(c - round(c)) < 1e-6 else -1)
                        ev["cells"].append(row)
                elif strat == "uniform":
                    ev["cells"] = [[cell(x, t, 4) for x, t in zip(q, tops)] for q in pts]
                else:
                    n = len(pts)
                    ev["cells"] = [[cell(x, t, n) for x, t in zip(q, tops)] for q in pts]
                    ev["quarters"] = [[cell(x, t, 4) for x, t in zip(q, tops)] for q in pts]
            ev["key"] = hashlib.md5(state.encode()).hexdigest()
            ev["digest"] = hashlib.md5(repr(pts).encode()).hexdigest()
            ev["set"] = hashlib.md5(repr(sorted(pts)).encode()).hexdigest()
        out.append(ev)
    if script["unknown"]:
        ok, v = call(lambda: list(par._replace(test_point_strategy=script["unknown"]).generate_test_points(ds, live)))
        out.append({"op": "refuse", "ok": ok, "err": "" if ok else v})
    return out


def run(ctx):
    ctx.rule = ("interleavings of point generation with draws from the global random source over the strategies, settings and data "
                "sets of the bounded specification, and seeded larger ones; non-trivial: points were generated twice from one source state")
    ctx.model_check("TestPoints", constants={"Pubs": ctx.pick("{1, 2, 3}", "{1, 2, 3, 4}")})
    gen = ctx.generate("TestPointsGen")
    rng = ctx.rng("c19")
    scripts = []

    def tops(p):
        return [rng.choice([0.05, 0.1, 1.0, 3, 7.25, 1e-6, 12345.678, 1e9, rng.uniform(0.01, 5)]) for _ in range(p)]

    def script(p, strat, size, log, **kw):
        s = {"p": p, "strategy": strat, "size": size, "log": log, "tops": tops(p), "npub": None, "perpub": None, "defaultn": False,
             "seeds": [rng.randrange(2**31) for _ in range(2)], "jitter": rng.randrange(10**9), "unknown": ""}
        s.update(kw)
        scripts.append(s)

    heavy = lambda g: g["strategy"] == "latin"
    logs = [g for g in gen if len(set(x for x in g["log"] if x.startswith("make"))) < len([x for x in g["log"] if x.startswith("make")])]
    for strat, k in (("grid", ctx.pick(40, 400)), ("uniform", ctx.pick(80, 800)), ("latin", ctx.pick(60, 600))):
        for g in rng.sample([g for g in logs if g["strategy"] == strat], k):
            script(g["npub"], strat, g["size"], g["log"], unknown=rng.choice(["", "", "nosuch", "grid "]))
    again = ["make0", "global", "make0", "make1", "lazy", "lazy"]
    for _ in range(ctx.pick(40, 600)):
        script(rng.choice([1, 2, 3, 4, 5]), "grid", rng.choice([1, 2, 4, 5]), again[:3])
        script(rng.choice([1, 2]), "grid", rng.choice([9, 17, 30]), again[:3])
        p = rng.choice([1, 2, 3, 6, 15])
        script(p, "uniform", rng.choice([1, 5, 99, 100, 101, 137, 400]), again, npub=rng.choice([None, 1, p, p]),
               perpub=rng.choice([None, None, 1, 7, 150]), defaultn=rng.random() < 0.2)
        p = rng.choice([1, 2, 3, 6])
        script(p, "latin", rng.choice([1, 50, 99, 100, 101, 137, 250]), again[:4], npub=rng.choice([None, 1, p, p]),
               perpub=rng.choice([None, None, 1, 7, 60]), defaultn=rng.random() < 0.2)
    # the ceiling of the Latin hypercube
    for n, npub, perpub in [(1999, 1, 1), (2000, 1, 1), (2001, 1, 1), (5000, 1, 1), (100, 25, 100), (7, 3, 667), (1, 2, 1000)][: ctx.pick(5, 7)]:
        script(rng.choice([1, 2]), "latin", n, again[:3], npub=npub, perpub=perpub)
    script(1, "uniform", 6000, ["make0", "make1"])
    script(2, "uniform", 7, ["make0", "make1"], npub=2, perpub=4500)
    for strat in ("uniform", "latin"):
        script(2, strat, 100, again[:3], tops=[0.0, 1.5])
    traces = ctx.pmap(drive, scripts, seconds=300)
    ctx.log("ran %d scripts" % len(scripts))
    ctx.validate("TestPointsTrace", traces, nontrivial=lambda t: len(set(e.get("key") for e in t)) < len(t))
    ctx.assumptions = ["pairwise distances inside pyDOE are computed by scipy instead of its interpreted loop (same values)"]
