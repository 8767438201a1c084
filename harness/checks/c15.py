"""C15: tables of experiments against ResultTable.tla (and Experiment.tla)."""
import shutil
import tempfile

import xp
from checks.c16 import scene_sets
from vlib import BADINT, as_int, scaled


def spec_config(c):
    """The configuration as the specification sees it (numbers as texts, fractions in millionths)."""
    t = xp.canon
    gen = c.get("generates", True)
    return {
        "strategy": c["strategy"], "kw": [[k, str(v)] for k, v in c["kw"].items()], "x": c["kw"]["x"],
        "spm": c.get("spm", "goerg"), "mpm": c.get("mpm", "pairwise_union"), "generates": gen,
        "spends": [int(round(f * 1e6)) for f in ([c["frac"]] if gen else c["spends"])],
        "decay": t(c.get("decay", 12)), "size": t(c.get("size", 100000)), "hash": t(c.get("hash", 1)),
        "epsilon": t(c.get("epsilon", 1.0)), "delta": t(c.get("delta", 1e-5)), "replica": t(c.get("replica", 1)),
        "maxfreq": t(c.get("maxfreq", 3)), "tps": c.get("tps", "vp"), "tpkw": [[k, str(v)] for k, v in c.get("tpkw", {}).items()],
    }


def identity(r):
    num = lambda k: as_int(float(r[k])) if r.get(k, "NA") not in ("NA",) else BADINT
    try:
        n = num("ncampaigns")
        total = scaled(float(r["average_spend_fraction"]) * n, 1e6)
        return {"dataset": r["dataset"], "strategy": r["strategy"], "spm": r["single_pub_model"], "mpm": r["multi_pub_model"],
                "replica": r["replica_id"], "size": r["liquid_legions_sketch_size"], "decay": r["liquid_legions_decay_rate"],
                "maxfreq": r["max_frequency"], "epsilon": r["privacy_budget_epsilon"], "delta": r["privacy_budget_delta"],
                "maximum": num("maximum_reach"), "largest": num("largest_pub_reach"), "campaigns": n,
                "fractions": total, "score": num("mean_error"), "ok": num("model_succeeded")}
    except (KeyError, ValueError):
        return {"dataset": "malformed", "row": str(sorted(r.items()))[:300]}


def drive(script):
    root = tempfile.mkdtemp(prefix="scene_", dir=script["scratch"])
    out = [{"op": "reset"}]
    have = set()
    try:
        for st in script["runs"]:
            new = [s for s in script["sets"] if s["name"] in st["sets"] and s["name"] not in have]
            xp.write_design(root, new)
            have |= set(s["name"] for s in new)
            if st["fresh"]:
                shutil.rmtree(xp.paths(root)["work"], ignore_errors=True)
            cs = [script["configs"][i] for i in st["list"]]
            status, v, ev = xp.full_run(root, cs, st["mode"], seed=script["seed"], analysis=script["analysis"],
                                        driver=st["driver"], shuffle=st["shuffle"])
            e = {"op": "table", "mode": st["mode"], "ok": status == "end",
                 "sets": [{"name": s["name"], "logs": [[u for u, _ in lg] for lg in s["logs"]]} for s in script["sets"] if s["name"] in have],
                 "configs": [spec_config(c) for c in cs]}
            if status == "end":
                rows = v["value"]["rows"]
                e["ids"] = [identity(r) for r in rows]
                e["rows"] = [{"dataset": r.get("dataset", "?"), "name": r.get("trial", "?"), "digest": xp.digest(r)} for r in rows]
                e["output"] = True
                if "out" in v["value"]:
                    o = v["value"]["out"]
                    e["output"] = sorted(map(xp.digest, o["rows"])) == sorted(map(xp.digest, rows)) and \
                        sorted(o["cols"]) == sorted(v["value"]["cols"])
            else:
                e["how"] = status
                e["detail"] = str(v)[:2500]
            out.append(e)
        return out
    finally:
        shutil.rmtree(root, ignore_errors=True)


def config_pool(rng, npubs):
    """Configurations that differ in one field, and ones that coincide after specialisation."""
    base = {"strategy": "probe", "kw": {"x": rng.randint(1, 3)}, "frac": rng.choice([0.25, 0.5, 1.0]), "size": 1000,
            "replica": 1, "maxfreq": rng.choice([1, 2, 3]), "gseed": rng.randint(1, 5)}
    if rng.random() < 0.4:
        base["tpkw"] = {"k": rng.choice([1, 2]), "npublishers": 0}
    pool = [base]

    def other():
        c = dict(rng.choice(pool))
        c["kw"] = dict(c["kw"])
        f = rng.choice(["x", "q", "replica", "maxfreq", "decay", "size", "hash", "epsilon", "delta", "spm", "mpm", "frac", "tpkw", "same", "explicit", "npub", "strategy"])
        if f == "x":
            c["kw"]["x"] += rng.randint(1, 3)
        elif f == "q":
            c["kw"]["q"] = rng.choice([0, 1])
        elif f == "replica":
            c[f] = rng.randint(1, 12)
        elif f == "maxfreq":
            c[f] = rng.choice([1, 2, 4])
        elif f == "decay":
            c[f] = rng.choice([10, 12, 13])
        elif f == "size":
            c[f] = rng.choice([500, 1000, 2000])
        elif f == "hash":
            c[f] = rng.choice([1, 2])
        elif f == "epsilon":
            c[f] = rng.choice([0.5, 1.0, 0.1])
        elif f == "delta":
            c[f] = rng.choice([1e-5, 1e-6])
        elif f == "spm":
            c[f] = rng.choice(["goerg", "gamma_poisson"])
        elif f == "mpm":
            c[f] = rng.choice(["pairwise_union", "none"])
        elif f == "frac":
            c[f] = rng.choice([0.25, 0.5, 1.0])
        elif f == "tpkw":
            c[f] = {"k": rng.choice([1, 2, 3])}
        elif f == "npub":
            c["tpkw"] = {"k": rng.choice([1, 2]), "npublishers": rng.choice([0, 1, 7])}
        elif f == "explicit" and npubs:  # fixed fractions, where all data sets have the same number of publishers
            c["generates"] = False
            c["spends"] = [c["frac"]] * npubs if rng.random() < 0.4 else [rng.choice([0.1, 0.25, 0.5, 0.9, 1.0]) for _ in range(npubs)]
        return c

    if npubs > 2:
        pool.append(dict(base, generates=False, spends=[0.1, 0.25, 1.0]))
    for _ in range(5):
        pool.append(other())
    rng.shuffle(pool)
    return pool


def run(ctx):
    ctx.rule = ("histories of runs (configuration lists with repetitions, growing designs, modes) of the bounded specification over seeded data sets "
                "and configurations; non-trivial: at least two runs whose list has a repeated configuration or a rerun over stored results")
    ctx.model_check("ResultTable", constants=ctx.pick({"MaxList": 2}, {"MaxList": 4}))
    ctx.model_check("MCExperiment")
    gen = ctx.generate("ResultTableGen")
    xp.preload()
    rng = ctx.rng("c15")
    scripts = []
    for g in rng.sample(gen, min(len(gen), ctx.pick(260, 3500))):
        sets = scene_sets(rng, 3 if rng.random() < 0.1 else None)
        npubs = {len(s["logs"]) for s in sets}
        pool = config_pool(rng, list(npubs)[0] if len(npubs) == 1 else 0)
        names = [s["name"] for s in sets]
        runs = []
        for r in g:
            runs.append({"mode": r["mode"], "list": [(i - 1) % len(pool) for i in r["list"]],
                         "sets": [names[(i - 1) % len(names)] for i in r["sets"]],
                         "driver": rng.random() < 0.5, "shuffle": rng.randint(1, 999), "fresh": rng.random() < 0.4})
            if rng.random() < 0.3:  # a longer list
                runs[-1]["list"] += [rng.randrange(len(pool)) for _ in range(rng.randint(1, 4))]
            if runs[-1]["mode"] == "parallel" and rng.random() < 0.5:
                runs[-1]["mode"] = "pipeline"
        scripts.append({"scratch": ctx.scratch, "sets": sets, "configs": pool, "runs": runs, "seed": rng.randint(1, 5),
                        "analysis": rng.choice(["", "single_pub"]) if npubs == {1} else ""})
    traces = ctx.pmap(drive, scripts, seconds=300)
    ctx.log("ran %d scripts" % len(scripts))
    ctx.validate("ResultTableTrace", traces, nontrivial=lambda t: len(t) > 2)
    ctx.assumptions = ["configuration lists and designs are not empty (an empty table cannot be built)",
                       "Apache Beam is replaced by an in-process stand-in that makes its scheduling choices at random"]
