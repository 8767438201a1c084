"""C17: rows under permuted histories against Reproducible.tla."""
import hashlib
import json
import os
import re
import shutil
import tempfile

import xp
from checks.c16 import scene_sets
from checks.c19 import fast_distances
from checks.c21 import config_record


def h(x):
    return hashlib.md5(repr(x).encode()).hexdigest()[:12]


def tree(path):
    out = []
    for d, _, fs in sorted(os.walk(path)):
        for f in sorted(fs):
            with open(os.path.join(d, f), "rb") as fh:
                out.append((os.path.join(d, f), hashlib.md5(fh.read()).hexdigest()))
    return out


def state(descs):
    """The configurations, including the state of their random sources."""
    return h([(config_record(d), json.dumps(d.system_params.generator.bit_generator.state, sort_keys=True, default=str)) for d in descs])


def point_key(dataset, seed, d):
    e = d.experiment_params
    return h([dataset, seed, e.test_point_strategy, sorted(e.test_point_strategy_kwargs.items()), e.max_frequency])


def history(root, script, log, out):
    """Runs one process's history; appends events."""
    import random

    import numpy as np
    from wfa_planning_evaluation_framework.data_generators.data_design import DataDesign
    from wfa_planning_evaluation_framework.driver.experiment import Experiment
    from wfa_planning_evaluation_framework.driver.experimental_design import ExperimentalDesign
    from apache_beam.options.pipeline_options import PipelineOptions
    import apache_beam.verif_control as vc

    descs = xp.configs(script["configs"])
    fs = xp.crash_fs()
    design = DataDesign(root + "/data", fs)
    names = design.names
    rnd = random.Random(script["salt"])
    data0 = tree(root + "/data")
    k = [0]

    def fresh():
        k[0] += 1
        return "%s/w%d_%d/trials" % (root, os.getpid(), k[0])

    def rows(df, seed, pkeys):
        _, rs = xp.table(df)
        for r in rs:
            pk, pts = pkeys.get((r["dataset"], r["trial"]), ("", ""))
            out.append({"op": "row", "key": "%s|%s|%d|%s" % (r["dataset"], r["trial"], seed, script["analysis"]), "row": xp.digest(r),
                        "pkey": pk, "points": pts})

    for st in log:
        before = state(descs)
        seed = script["seeds"][st["c"] % len(script["seeds"])] if st["op"] == "eval" else script["seeds"][0]
        err = ""
        try:
            if st["op"] == "draw":
                np.random.random(rnd.randint(1, 50))
                np.random.seed(rnd.randint(0, 1000)) if rnd.random() < 0.3 else None
                random.random()
            elif st["op"] == "read":
                ds = design.by_name(names[(st["d"] - 1) % len(names)])
                ds.reach_by_spend([1.0] * ds.publisher_count, 2)
            elif st["op"] == "eval":
                name = names[(st["d"] - 1) % len(names)]
                ts = Experiment(fresh(), design, name, descs, analysis_type=script["analysis"]).generate_trials()
                t = ts[(st["c"] - 1) % len(ts)]
                for sd in {seed, script["seeds"][0]}:
                    xp.S["points"], xp.S["value"] = [], None
                    own = h(config_record(t._trial_descriptor)) if hasattr(t, "_trial_descriptor") else ""
                    df = t.evaluate(sd, fs)
                    pkeys = {}
                    if hasattr(t, "_trial_descriptor"):
                        td = t._trial_descriptor
                        if own != h(config_record(td)):
                            before = "changed"
                        if not script["analysis"] and xp.S["points"]:
                            r = xp.table(df)[1][0]
                            if r["mean_error"] != "NA" and xp.S["value"] is not None:
                                truth = round(float(r["mean_error"]) + xp.S["value"], 5) + 0.0
                                pkeys[(r["dataset"], r["trial"])] = (point_key(name, sd, td), h([sorted(xp.S["points"]), truth]))
                    rows(df, sd, pkeys)
                    if rnd.random() < 0.3:
                        rows(t.evaluate(sd, fs), sd, {})  # as stored
                    shutil.rmtree(root + "/w%d_%d" % (os.getpid(), k[0]), ignore_errors=True)
            else:
                lst = list(descs) if st["c"] == 0 else list(reversed(descs))
                if rnd.random() < 0.3:
                    lst = lst[1:] or lst
                vc.SEED, vc.SHUFFLE, vc.RETRY = rnd.randint(1, 999), True, True
                d = fresh()
                ed = ExperimentalDesign(d, design, lst, seed, 2 if st["m"] == "parallel" else 1, script["analysis"], fs)
                df = ed.load(use_apache_beam=st["m"] == "pipeline", pipeline_options=PipelineOptions(["--temp_location=" + d]))
                rows(df, seed, {})
        except Exception as e:
            import traceback

            err = traceback.format_exc()[-1500:]
        out.append({"op": "work", "kind": st["op"], "mode": st["m"], "ok": not err, "err": err, "cfg": state(descs) == before,
                    "data": tree(root + "/data") == data0})
        if err:
            break


def drive(script):
    root = tempfile.mkdtemp(prefix="scene_", dir=script["scratch"])
    xp.write_design(root, script["sets"])
    out = [{"op": "reset"}]
    try:
        for log in script["logs"]:
            # "new": the rest happens in another process
            parts, cur = [], []
            for st in log:
                if st["op"] == "new":
                    parts.append(cur)
                    cur = []
                else:
                    cur.append(st)
            parts.append(cur)
            for part in parts:
                if not part:
                    continue
                res = []
                st, v, _ = xp.child(root, lambda: (history(root, script, part, res), res)[1], seconds=120)
                if st != "end":
                    out.append({"op": "work", "kind": "process", "mode": "", "ok": False, "err": str((st, v))[:1500], "cfg": True, "data": True})
                    return out
                out.extend(v["value"])
        return out
    finally:
        shutil.rmtree(root, ignore_errors=True)


POINTS = [("grid", {"grid_size": 2}), ("grid", {"grid_size": 3}), ("uniformly_random", {"npoints": 5}),
          ("uniformly_random", {"npoints": 7, "npublishers": 1, "minimum_points_per_publisher": 4}), ("vp", {"k": 2})]
LATIN = ("latin_hypercube", {"npoints": 101, "npublishers": 1, "minimum_points_per_publisher": 1})


def run(ctx):
    ctx.rule = ("histories of evaluations, designs in all modes, other draws, reads and new processes of the bounded specification; "
                "non-trivial: some trial is evaluated at least twice")
    ctx.model_check("Reproducible", constants=ctx.pick({"MaxHistory": 4}, {"MaxHistory": 5}))
    gen = ctx.generate("ReproducibleGen")
    xp.preload()
    fast_distances()
    rng = ctx.rng("c17")

    def real(sets):
        c = {"strategy": "m3strategy", "kw": {}, "frac": 1.0, "size": 1000, "maxfreq": 2, "epsilon": 50.0,
             "spm": "goerg", "mpm": rng.choice(["pairwise_union", "restricted_pairwise_union"])}
        if all(len(s["logs"]) == 1 for s in sets) and rng.random() < 0.5:
            c["strategy"], c["mpm"] = "single_publisher", "none"
        return c

    scripts = []
    n = ctx.pick(150, 2200)
    picks = rng.sample(gen, min(len(gen), 3 * n))
    for i in range(n):
        sets = scene_sets(rng)
        cs = []
        tp = rng.choice(POINTS) if rng.random() < 0.93 else LATIN
        for x in range(rng.choice([1, 2, 2, 3])):
            c = {"strategy": "probe", "kw": {"x": x + 1, "q": rng.choice([0, 1, 2]), "src": rng.choice(["h", "g", "n", "hgn", "hn"])},
                 "frac": rng.choice([0.5, 1.0]), "size": 1000, "share": rng.random() < 0.5, "gseed": rng.randint(1, 3), "maxfreq": 2}
            c["tps"], c["tpkw"] = (tp if rng.random() < 0.7 else rng.choice(POINTS))
            cs.append(c)
        if rng.random() < 0.12:
            for k, d in enumerate(sets):  # enough impressions for real models
                d["logs"] = [[(u % (7 + 2 * k), 0.1 * u + 0.1) for u in range(rng.randint(20, 40))] for _ in d["logs"]]
            r = real(sets)
            r["tps"], r["tpkw"] = rng.choice(POINTS)
            cs.append(r)
        logs = []
        for g in picks[3 * i:3 * i + 2]:
            g = [dict(o) for o in g]
            for o in g:
                if o["m"] == "parallel" and rng.random() < 0.7:
                    o["m"] = "serial"
                if o["op"] == "eval":
                    o["c"] = rng.randint(1, 4)
            logs.append(g)
        if not logs:
            break
        one = all(len(s["logs"]) == 1 for s in sets)
        scripts.append({"scratch": ctx.scratch, "sets": sets, "configs": cs, "logs": logs, "salt": rng.randint(0, 9999),
                        "seeds": rng.choice([[1], [1, 2], [7, 8]]), "analysis": "single_pub" if one and rng.random() < 0.2 else ""})
    traces = ctx.pmap(drive, scripts, seconds=300)
    ctx.log("ran %d scripts" % len(scripts))

    def twice(t):
        ks = [e["key"] for e in t if e["op"] == "row"]
        return len(set(ks)) < len(ks)

    ctx.validate("ReproducibleTrace", traces, nontrivial=twice)
    ctx.assumptions = ["random sources are numpy's global one and the generators in configurations; a strategy drawing from other sources is its own business",
                       "Apache Beam is replaced by an in-process stand-in that makes its scheduling choices at random"]
