"""C16 (and the run structure of C15): crashes and reruns against Experiment.tla."""
import json
import os
import re
import shutil
import tempfile

import xp
from vlib import MachineryError


def key_of(row):
    m = re.search(r"\(x=(\d+)", row["trial"])
    return [int(float(row["maximum_reach"])), int(m.group(1))]


class Scene:
    def __init__(self, script):
        self.s = script
        self.root = tempfile.mkdtemp(prefix="scene_", dir=script["scratch"])
        xp.FAIL.update({k: tuple(v) for k, v in script.get("fail", {}).items()})
        xp.write_design(self.root, script["sets"])
        self.out = []

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)

    def learn(self):
        """An uninterrupted run: the keys, rows, file names and markers of the trials."""
        st, v, ev = xp.full_run(self.root, self.s["configs"], "serial", analysis=self.s["analysis"], driver=False)
        if st != "end":
            self.out.append({"op": "failed", "how": "uninterrupted-run:" + st, "detail": str(v)[:1500]})
            return False
        self.rows = v["value"]["rows"]
        self.keys = [key_of(r) for r in self.rows]
        self.ref = [xp.digest(r) for r in self.rows]
        self.marker_of, self.result_of = {}, {}
        for e in ev:
            if e["op"] == "fit" and len(e["markers"]) == 1 and e["key"] in self.keys:
                self.marker_of[list(e["markers"])[0]] = self.keys.index(e["key"]) + 1
        _, rs = xp.files(self.root)
        for name, data in rs.items():
            for r in self.read(data):
                if key_of(r) in self.keys:
                    self.result_of[name] = self.keys.index(key_of(r)) + 1
        self.texts = {t: len(rs[n].decode()) for n, t in self.result_of.items()}
        shutil.rmtree(xp.paths(self.root)["work"])
        self.n = len(self.keys)
        return True

    def read(self, data):
        import io

        import pandas as pd

        try:
            return xp.table(pd.read_csv(io.StringIO(data.decode())))[1]
        except Exception:
            return []

    def observe(self, markers=None, results=None, hashes=None, trial=None):
        """The observation part of an event."""
        if markers is None:
            mk, rs = xp.files(self.root)
            markers = {k: v.decode("utf-8", "replace") for k, v in mk.items()}
            hashes = {k: xp.md5(v) for k, v in rs.items()}
        else:
            rs = results
        ts = sorted({self.marker_of[m] for m in markers if m in self.marker_of})
        named = True
        for m, text in markers.items():
            t = self.marker_of.get(m)
            if t is not None and t == trial:  # others may be torn leftovers
                r = self.rows[t - 1]
                named = named and r["dataset"] in text and r["trial"] in text
        fs, hs = ["none"] * self.n, [""] * self.n
        for name, h in hashes.items():
            t = self.result_of.get(name)
            if t is None:
                continue
            hs[t - 1] = h
            fs[t - 1] = self.kind(name, h, rs)
        return {"markers": ts, "strange": sum(m not in self.marker_of for m in markers), "named": named, "files": fs, "hashes": hs}

    def kind(self, name, h, rs):
        """whole: the file holds exactly the row of an uninterrupted run"""
        if (name, h) in self.kinds:
            return self.kinds[(name, h)]
        data = rs[name] if isinstance(rs, dict) and isinstance(rs.get(name), bytes) else None
        if data is None:
            p = xp.paths(self.root)["dir"] + "/" + name
            if not os.path.exists(p):
                return "other"
            with open(p, "rb") as f:
                data = f.read()
            if xp.md5(data) != h:
                return "other"
        rows = self.read(data)
        t = self.result_of[name]
        k = "whole" if len(rows) == 1 and xp.digest(rows[0]) == self.ref[t - 1] and data.endswith(b"\n") else "other"
        self.kinds[(name, h)] = k
        return k

    def run(self):
        self.kinds = {}
        if not self.learn():
            return [{"op": "reset", "n": 0}] + self.out
        self.out = [{"op": "reset", "n": self.n}]
        for step in self.s["log"]:
            if step["op"] == "spoil":
                self.spoil((step["t"] - 1) % self.n + 1, step["how"])
            elif not self.one(step):
                break
        return self.out

    def spoil(self, t, how):
        name = [n for n, u in self.result_of.items() if u == t]
        p = xp.paths(self.root)["dir"] + "/" + (name[0] if name else "")
        if not name or not os.path.exists(p):
            return
        with open(p, "rb") as f:
            old = f.read()
        new = {"empty": b"", "bytes": b"\xff\xfe\x00\x81" + old[:50], "blank": b"\n\n"}[how]
        with open(p, "wb") as f:
            f.write(new)
        self.out.append(dict(self.observe(), op="spoil", t=t))

    def one(self, step):
        plan = None
        if step["at"] == "op":
            plan = {"kind": "op", "n": step["n"], "when": step["when"], "frac": step["frac"]}
        elif step["at"] != "end":
            t = (step["t"] - 1) % self.n + 1
            res = [n for n, u in self.result_of.items() if u == t]
            mk = [m for m, u in self.marker_of.items() if u == t]
            plan = {"kind": "step", "at": step["at"], "key": self.keys[t - 1], "frac": step["frac"],
                    "result": "/trials/" + (res[0] if res else "?"), "marker": "/pending/" + (mk[0] if mk else "?")}
        cores = 1 if step["mode"] != "parallel" else 2 + step["shuffle"] % 2
        self.out.append({"op": "start", "mode": step["mode"], "cores": cores})
        st, v, ev = xp.full_run(self.root, self.s["configs"], step["mode"], plan, analysis=self.s["analysis"],
                                driver=step["driver"], shuffle=step["shuffle"])
        now = self.observe()  # also fixes which bytes are whole
        for e in ev:
            if e["op"] == "fit":
                t = self.keys.index(e["key"]) + 1 if e["key"] in self.keys else 0
                self.out.append(dict(self.observe(e["markers"], None, e["results"], t), op="fit", t=t))
        if st == "crash":
            self.out.append(dict(now, op="crash"))
            return True
        if st != "end":
            self.out.append({"op": "failed", "how": st, "detail": str(v)[:3000]})
            return False
        got = v["value"]["rows"]
        rows = [[] for _ in range(self.n)]
        extra = 0
        for r in got:
            try:
                t = self.keys.index(key_of(r))
            except Exception:
                extra += 1
                continue
            rows[t].append("own" if xp.digest(r) == self.ref[t] else "other")
        output = True
        if "out" in v["value"]:
            output = sorted(map(xp.digest, v["value"]["out"]["rows"])) == sorted(map(xp.digest, got))
        self.out.append(dict(now, op="end", rows=rows, extra=extra, output=output))
        return True


def drive(script):
    sc = Scene(script)
    try:
        return sc.run()
    finally:
        sc.close()


def scene_sets(rng, pubs=None):
    """Two or three small data sets of different maximum reach."""
    out, reach = [], []
    for name in rng.choice([rng.sample(["a", "b", "ds1", "ds11", "z z"], rng.choice([1, 2, 2])), ["a", "A"], ["ds1", "Ds1"], ["n", ".n"]] if rng.random() < 0.3 else
                           [rng.sample(["a", "b", "ds1", "ds11", "z z"], rng.choice([1, 2, 2]))]):
        while True:
            npub = pubs or (rng.choice([1, 1, 2]) if rng.random() < 0.9 else 3)
            nu = rng.randint(3, 9)
            logs = [[(rng.randint(1, nu), round(0.1 * k + 0.5, 2)) for k in range(rng.randint(2, 8))] for _ in range(npub)]
            full = len({u for lg in logs for u, _ in lg})
            if full not in reach:
                break
        reach.append(full)
        out.append({"name": name, "logs": logs})
    return out


def scene_configs(rng, n, fail=None):
    cs = []
    for i in range(n):
        kw = {"x": i + 1}
        if rng.random() < 0.5:
            kw["q"] = rng.choice([1, 2])
        kw["src"] = rng.choice(["h", "g", "n", "hgn"])
        if fail and rng.random() < 0.3:
            kw["f"] = rng.choice(sorted(fail))
        cs.append({"strategy": "probe", "kw": kw, "frac": rng.choice([0.3, 0.5, 1.0]), "size": 1000, "share": rng.random() < 0.3,
                   "maxfreq": rng.choice([1, 3]), "replica": rng.choice([1, 2])})
    return cs


FAILS = {"e0": ["fit", 0, "value", "it, failed: \"badly\""], "e1": ["predict", 1, "zero", "line one\nline two"], "e2": ["points", 1, "key", "k"]}


def run(ctx):
    ctx.rule = ("histories of runs, crashes and spoilt files of the bounded specification, replayed with real crashes; a crash before and after "
                "every file operation and at prefixes of every written file; non-trivial: at least one crash or spoilt file")
    ctx.model_check("MCExperiment", constants=ctx.pick(None, {"MaxRuns": 4, "MaxCrashes": 3, "MaxGarbage": 2}))
    gen = ctx.generate("ExperimentGen")
    xp.preload()
    rng = ctx.rng("c16")

    def scene(log):
        return {"scratch": ctx.scratch, "sets": scene_sets(rng), "configs": scene_configs(rng, rng.choice([1, 2, 2, 3]), FAILS),
                "fail": FAILS, "analysis": rng.choice(["", "", "single_pub"]), "log": log}

    def dress(log):
        out = []
        swap = rng.random() < 0.5
        for x in log:
            x = dict(x)
            if x["op"] == "spoil":
                x["how"] = rng.choice(["empty", "bytes", "blank"])
            else:
                x["frac"] = rng.choice([0.0, 1.0, rng.random(), rng.random(), 1, 200, None])
                x["driver"] = rng.random() < 0.5
                x["shuffle"] = rng.randint(1, 99)
                if x["mode"] == "parallel" and rng.random() < 0.6:
                    x["mode"] = "serial"
            if swap and x["t"]:
                x["t"] += 1
            out.append(x)
        return out

    scripts = [scene(dress(g)) for g in rng.sample(gen, min(len(gen), ctx.pick(170, 2500)))]
    # a crash at every file operation of a run, then a rerun
    end = {"op": "run", "mode": "serial", "t": 0, "at": "end", "frac": None, "driver": False, "shuffle": 1}
    for driver in (True, False):
        base = scene([])
        base["configs"], base["sets"] = base["configs"][:2], base["sets"][:1]
        for n in range(1, ctx.pick(60, 90)):
            when = ["before", "after", "torn"] if ctx.thorough else [rng.choice(["before", "after", "torn", "torn"])]
            for w in when:
                c = dict(end, at="op", n=n, when=w, frac=rng.choice([0.0, 0.3, 0.9, 1.0, rng.random()]), driver=driver)
                scripts.append(dict(base, log=[c, dict(end, driver=driver)]))
    # every prefix of a stored result
    for _ in range(ctx.pick(1, 6)):
        base = scene([])
        base["configs"], base["sets"] = base["configs"][:1], base["sets"][:1]
        for k in range(0, ctx.pick(1500, 1500), ctx.pick(40, 3)):
            c = dict(end, t=1, at="writing", frac=k, driver=False)
            scripts.append(dict(base, log=[c, end]))
    traces = ctx.pmap(drive, scripts, seconds=300)
    ctx.log("ran %d scripts" % len(scripts))
    ctx.validate("ExperimentTrace", traces, nontrivial=lambda t: any(e["op"] in ("crash", "spoil") for e in t))
    ctx.extra["crashes"] = sum(e["op"] == "crash" for t in traces if t for e in t)
    ctx.assumptions = ["a crash ends all processes of the run at once; the operating system keeps what was written before",
                       "Apache Beam is replaced by an in-process stand-in that makes its scheduling choices at random"]
