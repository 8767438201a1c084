"""C18: failing trials against TrialFailure.tla."""
import hashlib
import json
import shutil
import tempfile

import xp
from checks.c15 import identity, spec_config
from checks.c16 import scene_sets
from vlib import scaled

IDENT = ["dataset", "trial", "replica_id", "single_pub_model", "multi_pub_model", "strategy", "liquid_legions_sketch_size",
         "liquid_legions_decay_rate", "maximum_reach", "ncampaigns", "largest_pub_reach", "max_frequency", "average_spend_fraction",
         "privacy_budget_epsilon", "privacy_budget_delta", "privacy_used_epsilon", "privacy_used_delta", "privacy_mechanisms",
         "model_succeeded", "model_exception"]
MESSAGES = ["plain", "with, comma", 'a "quoted" word', "line one\nline two", "", None, "NaN", "None", "caf\u00e9 \u2207", "100%s {0}",
            "x" * 3000, " leading", "a;b\tc", "'single'", "1.5", "#hash", "\\n"]


def h(x):
    return hashlib.md5(repr(x).encode()).hexdigest()[:12]


def drive(script):
    xp.FAIL.clear()
    xp.FAIL.update({k: tuple(v) for k, v in script["fail"].items()})
    root = tempfile.mkdtemp(prefix="scene_", dir=script["scratch"])
    xp.write_design(root, script["sets"])
    out = [{"op": "reset"}]
    an = script["analysis"]
    cfgs = script["configs"]
    try:
        for st in script["runs"]:
            if st["fresh"]:
                shutil.rmtree(xp.paths(root)["work"], ignore_errors=True)
            cs = [cfgs[i] for i in st["list"]]
            status, v, ev = xp.full_run(root, cs, st["mode"], seed=3, analysis=an, driver=st["driver"], shuffle=st["shuffle"])
            sets = [{"name": s["name"], "logs": [[u for u, _ in lg] for lg in s["logs"]]} for s in script["sets"]]
            mk, rs = xp.files(root)
            run = {"op": "run", "mode": st["mode"], "ok": status == "end", "rerun": not st["fresh"], "markers": len(mk), "rows": 0,
                   "sets": sets, "configs": [spec_config(c) for c in cs],
                   "fits": len([e for e in ev if e["op"] == "fit"]), "storedSame": False}
            if status != "end":
                run.update(how=status, detail=str(v)[:2500])
                out.append(run)
                return out
            rows, cols = v["value"]["rows"], v["value"]["cols"]
            run["rows"] = len(rows)
            st_rows = []
            import io

            import pandas as pd

            for data in rs.values():
                try:
                    st_rows += xp.table(pd.read_csv(io.StringIO(data.decode())))[1]
                except Exception:
                    st_rows.append({})
            have = {xp.digest(r) for r in st_rows}
            run["storedSame"] = all(xp.digest(r) in have for r in rows)
            out.append(run)
            notes = {}
            for e in ev:
                if e["op"] == "used":
                    notes[tuple(e["key"])] = len(e["used"])
            for r in rows:
                out.append(row_event(script, sets, cs, r, cols, notes, st["fresh"], out))
        return out
    finally:
        shutil.rmtree(root, ignore_errors=True)


def row_event(script, sets, cs, r, cols, notes, fresh, out):
    an = script["analysis"]
    name = r.get("dataset", "?")
    ds = next((s for s in sets if s["name"] == name), None)
    # the configuration, by the value of x that is part of the trial's name
    c = next((c for c in cs if "(x=%d," % c["kw"]["x"] in r.get("trial", "") or "(x=%d)" % c["kw"]["x"] in r.get("trial", "")), None)
    if ds is None or c is None:
        return {"op": "foreign-row", "row": str(r)[:300]}
    full = len({u for lg in ds["logs"] for u in lg})
    q, k = c["kw"].get("q", 0), c["tpkw"].get("k", 1)
    fid = c["kw"].get("f") or c["tpkw"].get("f") or ""
    f = script["fail"].get(fid, ["none", 0, "", ""])
    ident = identity(dict(r, mean_error="0"))
    ident = {x: ident[x] for x in ident if x not in ("score", "ok")}
    npub = len(ds["logs"])
    known = c["strategy"] == "probe" and (not an or npub == 1)
    text = r.get("model_exception", "NA")
    told = True
    if known and f[0] in ("fit", "points", "predict"):
        want = f[3] if f[3] else xp.EXC[f[2]].__name__
        if f[2] == "key" and f[3]:
            want = repr(f[3])
        told = want.replace("\r\n", "\n") in text
    ok = r.get("model_succeeded", "?")
    num = lambda s, m: scaled(float(r[s]), m) if r.get(s, "NA") != "NA" else -1
    queries = notes.get((full, c["kw"]["x"]), 0) if fresh else None
    e = {"op": "row", "trial": "row|%s|%s" % (name, r["trial"]), "digest": xp.digest(r), "cols": cols, "set": ds, "config": spec_config(c), "id": ident,
         "shape": "cols|%s|%s" % (an, c["maxfreq"]) if len({x["maxfreq"] for x in cs}) == 1 else "cols|union|%s" % sorted({x["maxfreq"] for x in cs}),
         "known": known, "fault": {"phase": f[0], "at": f[1]}, "q": q, "k": k,
         "calls": 30 + 30 * (c["maxfreq"] - 1) if an and npub == 1 else 0,
         "succeeded": int(ok) if ok in ("0", "1") else -1, "error": told and text != "NA", "errorNone": text == "None",
         "present": sorted(x for x in cols if x not in IDENT and r[x] != "NA"),
         "score": False, "eps": scaled(c["epsilon"], 1e5), "delta": scaled(c["delta"], 1e9),
         "usedEps": num("privacy_used_epsilon", 1e5), "usedDelta": num("privacy_used_delta", 1e9),
         "mechs": "" if r.get("privacy_mechanisms", "NA") == "NA" else r["privacy_mechanisms"]}
    e["queries"] = queries if queries is not None else next((o["queries"] for o in out if o.get("trial") == e["trial"]), -1)
    e["mechKey"] = "mech|%d|%d" % (npub, e["queries"])
    try:
        src = c["kw"].get("src", "")
        m = float(r.get("mean_error", "nan"))
        e["score"] = float(r["npoints"]) == k and (m == full - c["kw"]["x"] if src == "" else m == m)
    except (KeyError, ValueError):
        pass
    return e


def run(ctx):
    ctx.rule = ("every phase and position at which a trial can fail, from the bounded specification, with any exception and message, among "
                "succeeding trials, in every execution mode and again over the stored results; non-trivial: at least one trial fails")
    ctx.model_check("MCTrialFailure", constants=ctx.pick(None, {"MaxReruns": 3}))
    gen = ctx.generate("TrialFailureGen", constants=ctx.pick(None, {"MaxQ": 4, "MaxK": 4}))
    xp.preload()
    rng = ctx.rng("c18")
    rng.shuffle(gen)
    rare = [g for g in gen if g["fault"]["phase"] != "none"]
    n = ctx.pick(330, 2600)
    scripts = []
    per = {}
    for g in gen:
        per.setdefault((g["fault"]["phase"], g["fault"]["at"], g["analysis"], g["mode"] == "serial"), []).append(g)
    picks = []
    while len(picks) < n and any(per.values()):
        for key in sorted(per, key=str):
            if per[key]:
                picks.append(per[key].pop())
    picks = picks[:n]
    for g in picks:
        an = "single_pub" if g["analysis"] else ""
        while True:
            sets = scene_sets(rng)
            if not an or all(len(s["logs"]) == 1 for s in sets) or rng.random() < 0.05:
                break
        fail = {}

        def config(x, g2):
            f = g2["fault"]
            q, frac = g2["q"], 1.0
            if rng.random() < 0.15:  # a campaign that reaches nobody
                q, frac = min(q, 1), 0.01
            c = {"strategy": "probe", "kw": {"x": x, "q": q}, "frac": frac, "size": 1000, "epsilon": rng.choice([1.0, 0.5, 4.0]),
                 "delta": rng.choice([1e-4, 1e-5]), "tpkw": {"k": g2["k"]}, "maxfreq": mf, "replica": rng.choice([1, 2])}
            src = rng.choice(["", "", "h", "gn"])
            if src:
                c["kw"]["src"] = src
            if f["phase"] != "none":
                fid = "e%d" % x
                fail[fid] = [f["phase"], f["at"], rng.choice(sorted(xp.EXC)), rng.choice(MESSAGES)]
                (c["tpkw"] if f["phase"] in ("points", "truth") else c["kw"])["f"] = fid
            return c

        mf = rng.choice([1, 2, 3]) if not an else rng.choice([2, 3])
        if rng.random() < 0.1:
            mf = rng.choice([11, 12, 15])
        cs = [config(1, g)]
        for x in range(rng.choice([1, 1, 2])):
            r = rng.random()
            g2 = rng.choice(rare) if r < 0.4 else dict(rng.choice(rare), fault={"phase": "none", "at": 0})
            cs.append(config(x + 2, g2))
        order = list(range(len(cs)))
        rng.shuffle(order)
        cs = [cs[i] for i in order]
        good = [i for i, c in enumerate(cs) if "f" not in c["kw"] and "f" not in c["tpkw"]]
        one = lambda: rng.choice(["serial", "serial", "serial", "pipeline", "parallel"])
        runs = [{"list": list(range(len(cs))), "mode": g["mode"] if g["mode"] != "parallel" or rng.random() < 0.5 else "serial", "fresh": True},
                {"list": list(range(len(cs))), "mode": one(), "fresh": False}]
        if good and len(good) < len(cs):
            runs.append({"list": good, "mode": one(), "fresh": True})
        for st in runs:
            st.update(driver=rng.random() < 0.4, shuffle=rng.randint(1, 999))
        scripts.append({"scratch": ctx.scratch, "sets": sets, "configs": cs, "fail": fail, "analysis": an, "runs": runs})
    traces = ctx.pmap(drive, scripts, seconds=200)
    ctx.log("ran %d scripts" % len(scripts))
    ctx.validate("TrialFailureTrace", traces, nontrivial=lambda t: any(e["op"] == "row" and e["succeeded"] == 0 for e in t))
    ctx.assumptions = ["an error is an exception (not a request to exit) whose message can be written to a file",
                       "the single publisher analysis is asked for on data sets of one publisher"]
