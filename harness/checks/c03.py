"""C03: DataDesign / DataSet storage against DataDesign.tla."""
import os
import shutil
import tempfile

from vlib import call, as_int, MachineryError
from common import PRICE_SCHEMES, USER_SCHEMES, price_table

NAME_SCHEMES = [
    {"n1": "a", "n2": "b"},
    {"n1": "ds", "n2": "ds1"},
    {"n1": "data set.1", "n2": "data set.2"},
    {"n1": "dist=het;n=10,a=1.5", "n2": "dist=het;n=10,a=1.50"},
    {"n1": "x", "n2": "X"},
    {"n1": "1e3", "n2": "1000"},
    {"n1": ".hidden", "n2": "hidden"},
    {"n1": "a.b", "n2": "a.b.c"},
]
PUB_SCHEMES = [["p", "q", "r"], ["1", "2", "10"], ["b b", "a.csv", "c"], ["pub_1", "pub", "pub_10"], ["P", "p", "p."], [".p", "p.txt", "_p"], ["p~", "#p#", "caf\u00e9"]]


def cloud_setup(root):
    """Google-storage paths kept in a local directory by cloudpathlib's own test client."""
    import warnings

    warnings.simplefilter("ignore")
    from cloudpathlib.local import LocalGSClient, local_gs_implementation
    from cloudpathlib.cloudpath import implementation_registry
    from wfa_planning_evaluation_framework.filesystem_wrappers.filesystem_cloudpath_wrapper import (
        FilesystemCloudpathWrapper,
    )

    implementation_registry["gs"] = local_gs_implementation
    LocalGSClient(local_storage_dir=root).set_as_default_client()
    return FilesystemCloudpathWrapper()


def parse(path):
    ev = []
    with open(path) as f:
        for line in f:
            a, b = line.rstrip("\n").split(",")
            ev.append((int(a), float(b).hex()))
    return tuple(sorted(ev))


def drive(script):
    from wfa_planning_evaluation_framework.data_generators.data_design import DataDesign
    from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
    from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData

    tmp = tempfile.mkdtemp(prefix="verif_c03_")
    try:
        cloud = script["fs"] == "cloud"
        if cloud:
            fs = cloud_setup(os.path.join(tmp, "gs"))
            real = {"A": os.path.join(tmp, "gs", "bkt", "A"), "B": os.path.join(tmp, "gs", "bkt", "B")}
            url = {"A": "gs://bkt/A", "B": "gs://bkt/B"}
            for d in real.values():
                os.makedirs(d)
                open(os.path.join(d, "README"), "w").close()  # cloud directories exist only with a file in them
            fsargs = (fs,)
        else:
            real = {"A": os.path.join(tmp, "A"), "B": os.path.join(tmp, "sub", "B")}
            url = dict(real)
            fsargs = ()
            if script["stray"]:
                os.makedirs(real["A"])
                open(os.path.join(real["A"], "README"), "w").close()
        nm = NAME_SCHEMES[script["names"]]
        back = {v: k for k, v in nm.items()}
        cids = {}
        slots = {}
        slotrec = []
        for s in script["slots"]:
            pubs = []
            rec = []
            for pname, log, scheme, us in s["pubs"]:
                t = price_table(scheme, 12)
                data = [(USER_SCHEMES[us](u), t[p - 1]) for u, p in log]
                key = tuple(sorted((u, float(p).hex()) for u, p in data))
                cid = cids.setdefault(key, len(cids))
                pubs.append(PublisherData(data, pname))
                rec.append({"p": pname, "c": cid})
            slots[s["s"]] = DataSet(pubs, nm[s["nm"]])
            slotrec.append({"s": s["s"], "nm": s["nm"], "pubs": rec})

        def pubs_in(d):
            out = []
            for fn in sorted(os.listdir(d)):
                p = os.path.join(d, fn)
                if os.path.isdir(p):
                    out.append({"p": fn, "c": -2})
                    continue
                try:
                    c = cids.get(parse(p), -1)
                except Exception:
                    c = -1
                out.append({"p": fn, "c": c})
            return out

        def snap():
            out = {"stray": False}
            for d, root in real.items():
                lst = []
                if os.path.isdir(root):
                    for x in sorted(os.listdir(root)):
                        p = os.path.join(root, x)
                        if os.path.isfile(p):
                            if x != "README":
                                out["stray"] = True
                            continue
                        lst.append({"nm": back.get(x, x), "pubs": pubs_in(p)})
                out[d] = lst
            top = set(os.listdir(tmp)) - {"A", "sub", "gs", "scratch"}
            if top:
                out["stray"] = True
            return out

        hs = {}
        tr = [{"op": "start", "ok": True, "err": "", "slots": slotrec, "snap": snap()}]
        nread = 0
        hdir = {}
        for o in script["ops"]:
            op = o["name"]
            ev = {"op": op, "ok": True, "err": ""}
            if op == "open":
                ev.update(h=o["h"], d=o["d"], names=[])
                ok, v = call(DataDesign, url[o["d"]], *fsargs)
                if ok:
                    hs[o["h"]] = v
                    hdir[o["h"]] = o["d"]
                    ev["names"] = [back.get(x, x) for x in v.names]
            elif op == "add":
                ev.update(h=o["h"], s=o["s"])
                ok, v = call(hs[o["h"]].add, slots[o["s"]])
            elif op == "names":
                ev.update(h=o["h"], names=[], count=-1)
                ok, v = call(lambda: (list(hs[o["h"]].names), hs[o["h"]].count))
                if ok:
                    ev["names"] = [back.get(x, x) for x in v[0]]
                    ev["count"] = as_int(v[1])
                    if v[0] != sorted(v[0]):
                        ev["names"] = ["not-sorted"]
            elif op == "read":
                ev.update(h=o["h"], nm=o["nm"])
                ok, v = call(hs[o["h"]].by_name, nm[o["nm"]])
                ev["got"] = {"nm": "", "pubs": []}
                if ok:
                    slots["r"] = v
                    nread += 1
                    sc = os.path.join(tmp, "scratch")
                    os.makedirs(sc, exist_ok=True)
                    v.write_data_set(sc, "r%d" % nread)
                    got = pubs_in(os.path.join(sc, "r%d" % nread))
                    if v.publisher_count != len(got):
                        got.append({"p": "count-mismatch", "c": -3})
                    ev["got"] = {"nm": back.get(v.name, v.name), "pubs": got}
            elif op == "malformed":
                # damage one stored log that was never read, then read it
                d, name = o["d"], nm[o["nm"]]
                root = os.path.join(real[d], name)
                fn = sorted(os.listdir(root))[0]
                path = os.path.join(root, fn)
                with open(path) as f:
                    keep = f.read()
                lines = keep.splitlines(True)
                k = o["k"] % (len(lines) + 1)
                with open(path, "w") as f:
                    f.write("".join(lines[:k] + [o["text"] + "\n"] + lines[k:]))
                ok, v = call(DataSet.read_data_set, url[d] + "/" + name, *fsargs)
                with open(path, "w") as f:
                    f.write(keep)
                ev["text"] = o["text"]
            else:
                raise MachineryError("op " + op)
            ev["ok"] = ok
            if not ok:
                ev["err"] = v
            ev["snap"] = snap()
            tr.append(ev)
        return tr
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


BADLINES = ["x,1.0", "1", "1,2,3", "1,abc", "1.5,2.0", ",", "", "1,", ";", "# comment"]


def slot_contents(rng):
    ps = PUB_SCHEMES[rng.randrange(len(PUB_SCHEMES))]
    slots = []
    for s, nm in (("s1", "n1"), ("s2", "n1"), ("s3", "n2")):
        k = rng.choice([1, 1, 2, 3])
        pubs = []
        for pname in rng.sample(ps, k):
            log = [(rng.randint(1, 4), rng.randint(1, 12)) for _ in range(rng.choice([1, 2, 4, 9]))]
            pubs.append((pname, log, rng.choice(PRICE_SCHEMES), rng.choice(list(USER_SCHEMES))))
        slots.append({"s": s, "nm": nm, "pubs": pubs})
    return slots


def run(ctx):
    ctx.rule = ("behaviours of the specification (all of length 4 that add something are enumerated, a seeded sample of them is "
                "replayed, and random ones of length 9) replayed on real directories, local and cloud; non-trivial: a data set "
                "is read, copied or refused")
    ctx.model_check("MCDataDesign", constants={"MaxOps": ctx.pick(5, 6)})
    gen = ctx.generate("DataDesignGen", constants={"MaxOps": 4})
    rng = ctx.rng("c03")
    total4 = len(gen)

    def weight(h):
        s = [o["name"] for o in h]
        return s.count("add") + 2 * s.count("read") + 3 * any(o["name"] == "add" and not o["ok"] for o in h)

    rng.shuffle(gen)
    gen.sort(key=lambda h: -weight(h))
    gen = gen[: ctx.pick(300, 3000)] + rng.sample(gen, ctx.pick(200, 2000))
    gen += ctx.generate("DataDesignGen", constants={"MaxOps": 9}, simulate=(ctx.pick(200, 3000), 10))
    scripts = []
    for i, h in enumerate(gen):
        fs = "cloud" if i % 6 == 5 else "local"
        scripts.append(dict(ops=h, slots=slot_contents(rng), names=rng.randrange(len(NAME_SCHEMES)), fs=fs,
                            stray=rng.random() < 0.3))
    for i in range(ctx.pick(60, 600)):
        ops = [{"name": "open", "h": "h1", "d": "A"}, {"name": "add", "h": "h1", "s": rng.choice(["s1", "s3"])}]
        nm = "n1" if ops[1]["s"] == "s1" else "n2"
        ops.append({"name": "malformed", "d": "A", "nm": nm, "k": rng.randrange(20), "text": rng.choice(BADLINES)})
        scripts.append(dict(ops=ops, slots=slot_contents(rng), names=rng.randrange(len(NAME_SCHEMES)),
                            fs="cloud" if i % 6 == 5 else "local", stray=False))
    traces = ctx.pmap(drive, scripts, seconds=100)

    def nt(t):
        return any(e["op"] in ("read", "malformed") or not e["ok"] for e in t)

    ctx.validate("DataDesignTrace", traces, nontrivial=nt)
    ctx.extra["behaviours_of_length_4"] = total4
    ctx.assumptions = ["the cloud back end is cloudpathlib's local stand-in for Google storage"]
