"""C22: the file-system wrappers against FileSystem.tla."""
import fnmatch
import os
import shutil
import tempfile

from vlib import call, MachineryError
from checks.c03 import cloud_setup

CONTENT_SCHEMES = [
    {"c1": "hello", "c2": "bye\n"},
    {"c1": "y", "c2": "x" * 5000},
    {"c1": "a,b\n1,2\n", "c2": "\n\n"},
    {"c1": "caf\u00e9 \u2713", "c2": "plain"},
    {"c1": "only c1", "c2": ""},
    {"c1": "same length", "c2": "SAME LENGTH"},
]
NAME_SCHEMES = [
    {},
    {"a": "data set", "x": "1", "b": "data set2"},
    {"a": "A=1,b=2.5", "y.csv": "x.csv", "x": "xx"},
    {"a": "p", "b": "p1", "d": "p", "x": "p"},
    {"a": ".a", "x": ".x", "y.csv": ".y.csv"},
    {"a": "Q", "b": "q", "x": "r", "y.csv": "R", "d": "Rr"},
]
PATTERNS = ["*", "x*", "*.csv", "?", "nothing*", "*1*", "*1", "*x"]


def drive(script):
    from wfa_planning_evaluation_framework.filesystem_wrappers.filesystem_pathlib_wrapper import (
        FilesystemPathlibWrapper,
    )

    tmp = tempfile.mkdtemp(prefix="verif_c22_")
    try:
        back = script["back"]
        if back == "cloud":
            fs = cloud_setup(os.path.join(tmp, "gs"))
            root = "gs://bkt/" + script["root"]
            real = os.path.join(tmp, "gs", "bkt", script["root"])
        else:
            fs = FilesystemPathlibWrapper()
            root = real = os.path.join(tmp, script["root"])
        os.makedirs(real)
        names = dict(NAME_SCHEMES[script["names"]])
        for x in ("a", "b", "d", "x", "y.csv"):
            names.setdefault(x, x)
        cont = CONTENT_SCHEMES[script["contents"]]
        ucode = {}

        def text_code(text):
            # contents as codes; an appended tail is the code "t"
            n = 0
            while text.endswith("+TAIL"):
                text, n = text[:-5], n + 1
            for k, v in cont.items():
                if text == v:
                    return k + "t" * n
            if text == "" and n:
                return "t" * n
            return "?" + repr(text[:40])

        def path(p):
            return root + "".join("/" + names[x] for x in p)

        def comps(s):
            """path text -> names below the root"""
            s = str(s)
            if not s.startswith(root):
                return ["!" + s]
            rest = s[len(root):]
            if rest == "":
                return []
            if not rest.startswith("/"):
                return ["!" + s]
            return rest[1:].split("/")

        def snap():
            files, dirs = [], []
            for d, ds, fs_ in os.walk(real, followlinks=True):
                rel = [] if d == real else os.path.relpath(d, real).split(os.sep)
                for x in ds:
                    dirs.append(rel + [x])
                for x in fs_:
                    with open(os.path.join(d, x), encoding="utf-8", newline="") as f:
                        files.append({"p": rel + [x], "c": text_code(f.read())})
            extra = set(os.listdir(tmp)) - {"top", "gs", "elsewhere"}
            if extra:
                files.append({"p": ["outside"], "c": "?"})
            return {"files": files, "dirs": dirs}

        linked, gone = set(), set()
        tr = []
        ev = {"op": "start", "ok": True, "back": back}
        ev.update(snap())
        tr.append(ev)
        for o in script["ops"]:
            op = o["name"]
            rp = [names[x] for x in o["p"]]
            ev = {"op": op, "p": rp, "ok": True}
            P = path(o["p"])
            if op == "mkdir":
                ev.update(parents=o["parents"], exist_ok=o["exist_ok"])
                kw = {}
                if o["parents"]:
                    kw["parents"] = True
                if o["exist_ok"]:
                    kw["exist_ok"] = True
                ok, v = call(fs.mkdir, P, **kw)
            elif op == "write":
                ev.update(c=o["c"])
                text = cont[o["c"]]
                if o["how"] == "write_text":
                    ok, v = call(fs.write_text, P, text, **({"encoding": "utf-8"} if script["enc"] else {}))
                else:
                    def w():
                        with fs.open(P, "w", encoding="utf-8") as f:
                            f.write(text)
                    ok, v = call(w)
            elif op == "create":
                if back == "cloud" and "/".join(rp) in gone:
                    continue  # depends on the client library's cache
                ev.update(c=o["c"])
                text = cont[o["c"]]

                def w():
                    with fs.open(P, "x", encoding="utf-8") as f:
                        f.write(text)
                ok, v = call(w)
            elif op == "link":  # a directory that is reached through a symbolic link
                if back == "cloud" or os.path.lexists(P):
                    continue
                linked.add(P)
                os.makedirs(os.path.join(tmp, "elsewhere"))
                os.symlink(os.path.join(tmp, "elsewhere"), P)
                ev.update(op="mkdir", parents=False, exist_ok=False)
                ok, v = True, None
            elif op == "append":
                if back == "cloud" or "" in cont.values():
                    continue
                ev.update(c=o["c"])

                def w():
                    with fs.open(P, mode="a", encoding="utf-8") as f:
                        f.write("+TAIL")
                ok, v = call(w)
            elif op == "unlink":
                if P in linked:
                    continue
                if os.path.isfile(os.path.join(real, *rp)):
                    gone.add("/".join(rp))
                ev.update(missing_ok=o["missing_ok"])
                ok, v = call(fs.unlink, P, **({"missing_ok": True} if o["missing_ok"] else {}))
            elif op == "look":
                ok, v = call(lambda: (fs.exists(P), fs.is_file(P), fs.is_dir(P)))
                if ok:
                    ev.update(exists=bool(v[0]), is_file=bool(v[1]), is_dir=bool(v[2]))
                else:
                    ev.update(exists="error:" + v, is_file="?", is_dir="?")
                    ev["op"] = "look"
            elif op == "read":
                if back == "cloud" and not os.path.isfile(os.path.join(real, *rp)):
                    continue  # depends on the client library's cache
                def r():
                    with (fs.open(P) if script["enc"] else fs.open(P, "r", encoding="utf-8")) as f:
                        return f.read()
                ok, v = call(r)
                ev["val"] = text_code(v) if ok else ""
            elif op == "glob":
                pat = o["pat"]
                if back == "cloud" and pat not in ("*", "*.csv", "*1", "*x"):
                    pat = "*"  # cloudpathlib matches whole paths: only suffix patterns mean the same
                if back == "cloud" and not os.path.isdir(os.path.join(real, *rp)):
                    continue
                ok, v = call(lambda: [comps(x) for x in fs.glob(P, pat)])
                ev["val"] = v if ok else []
                ev["match"] = sorted(set(x for x in names.values() if fnmatch.fnmatchcase(x, pat)))
                ev["pat"] = pat
            elif op == "pure":
                parts = [names[x] for x in o["p"]]
                k = o["split"] % (len(parts) + 1)
                args = [root] + (["/".join(parts[:k])] if k > 1 else parts[:k]) + parts[k:]
                ok, v = call(lambda: (comps(fs.joinpath(*args)), fs.name(P), comps(fs.parent(P))))
                if ok:
                    ev.update(join=v[0], pname=str(v[1]), pparent=v[2])
                else:
                    ev.update(join=["error:" + v], pname="?", pparent=["?"])
            else:
                raise MachineryError(op)
            ev["ok"] = ok
            if not ok:
                ev["err"] = v
            ev.update(snap())
            tr.append(ev)
        return tr
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


PATHS = [["a"], ["a", "x"], ["a", "y.csv"], ["b", "x"], ["a", "d", "x"], ["b"], ["a", "d"], ["a", "d", "y.csv"], ["x"]]


def enrich(ops, rng):
    """adds reads, listings and pure path operations to a behaviour of the specification"""
    out = []
    for o in ops:
        out.append(o)
        r = rng.random()
        if r < 0.25:
            out.append({"name": "read", "p": rng.choice(PATHS)})
        elif r < 0.45:
            out.append({"name": "glob", "p": rng.choice([["a"], ["b"], ["a", "d"], []]), "pat": rng.choice(PATTERNS)})
        elif r < 0.55:
            out.append({"name": "pure", "p": rng.choice(PATHS), "split": rng.randrange(4)})
        elif r < 0.7:
            out.append({"name": "look", "p": rng.choice(PATHS)})
        elif r < 0.73:
            out.append({"name": "create", "p": rng.choice([o["p"], rng.choice(PATHS)]), "c": rng.choice(["c1", "c2"])})
        elif r < 0.77:
            out.append({"name": "append", "p": o["p"], "c": "t"})
    n = 0
    res = []
    for o in out:
        if o["name"] == "append":
            n += 1
            if n > 2:
                continue
        res.append(o)
    return res


def run(ctx):
    ctx.rule = ("random behaviours of the specification for both back ends, with reads, listings and path operations added, "
                "plus seeded busy histories; non-trivial: some file is written")
    ctx.model_check("MCFileSystem", constants={"MaxOps": ctx.pick(4, 5)})
    gen = ctx.generate("FileSystemGen", constants={"MaxOps": 10}, simulate=(ctx.pick(60, 600), 11))
    rng = ctx.rng("c22")
    rng.shuffle(gen)
    gen = gen[: ctx.pick(450, 6000)]
    scripts = []
    for g in gen:
        pre = []
        if rng.random() < 0.6:
            pre = [{"name": "mkdir", "p": ["a", "d"], "parents": True, "exist_ok": rng.random() < 0.5},
                   {"name": "mkdir", "p": ["b"], "parents": False, "exist_ok": False}]
        if rng.random() < 0.15:
            pre = [{"name": "link", "p": ["a"]}, {"name": "pure", "p": ["a"], "split": 0}]
        scripts.append({"back": g["back"], "ops": enrich(pre + g["ops"], rng), "names": rng.randrange(len(NAME_SCHEMES)),
                        "contents": rng.randrange(len(CONTENT_SCHEMES)), "root": rng.choice(["top", "top", "top/Sub", "top/s p/X.d"]), "enc": rng.random() < 0.5})
    for i in range(ctx.pick(250, 4000)):
        ops = [{"name": "mkdir", "p": ["a", "d"], "parents": True, "exist_ok": True},
               {"name": "mkdir", "p": ["b"], "parents": True, "exist_ok": True}]
        for _ in range(rng.choice([6, 15, 25])):
            k = rng.random()
            p = rng.choice(PATHS)
            if k < 0.4:
                ops.append({"name": "write", "p": p, "c": rng.choice(["c1", "c2"]), "how": rng.choice(["open", "write_text"])})
            elif k < 0.6:
                ops.append({"name": "unlink", "p": p, "missing_ok": rng.random() < 0.5})
            elif k < 0.7:
                ops.append({"name": "mkdir", "p": p, "parents": rng.random() < 0.5, "exist_ok": rng.random() < 0.5})
            else:
                ops.append({"name": "look", "p": p})
        scripts.append({"back": rng.choice(["local", "cloud"]), "ops": enrich(ops, rng), "names": rng.randrange(len(NAME_SCHEMES)),
                        "contents": rng.randrange(len(CONTENT_SCHEMES)), "root": rng.choice(["top", "top", "top/Sub", "top/s p/X.d"]), "enc": rng.random() < 0.5})
    traces = ctx.pmap(drive, scripts, seconds=100)
    ctx.validate("FileSystemTrace", traces, nontrivial=lambda t: any(e["op"] == "write" and e["ok"] for e in t))
    ctx.assumptions = ["the cloud back end is cloudpathlib's local stand-in for Google storage; cloud directories that lost "
                       "their last file are not queried"]
