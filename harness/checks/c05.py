"""C05: synthetic impressions, prices and data designs against Synthetic.tla."""
import json
import os
import shutil
import tempfile

from vlib import call, as_int, as_ints, BADINT

CONFIG_FILE = '''
import json
from wfa_planning_evaluation_framework.data_generators import data_set_parameters as p
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.data_generators.fixed_price_generator import FixedPriceGenerator
from wfa_planning_evaluation_framework.data_generators.homogeneous_impression_generator import HomogeneousImpressionGenerator
from wfa_planning_evaluation_framework.data_generators.heterogeneous_impression_generator import HeterogeneousImpressionGenerator
from wfa_planning_evaluation_framework.data_generators.heavy_tailed_impression_generator import HeavyTailedImpressionGenerator
from wfa_planning_evaluation_framework.data_generators.independent_overlap_data_set import IndependentOverlapDataSet
from wfa_planning_evaluation_framework.data_generators.sequentially_correlated_overlap_data_set import SequentiallyCorrelatedOverlapDataSet

S = json.loads(%r)
class Plain:
    """Each of n users once."""
    def __init__(self, n, random_generator):
        self.n = n
    def __call__(self):
        return list(range(self.n))

IMP = {"Plain": Plain, "Homogeneous": HomogeneousImpressionGenerator, "Heterogeneous": HeterogeneousImpressionGenerator,
       "HeavyTailed": HeavyTailedImpressionGenerator}
OVR = {"Full": DataSet, "Independent": IndependentOverlapDataSet, "Sequential": SequentiallyCorrelatedOverlapDataSet}

def entries():
    for e in S["entries"]:
        kw = {}
        if e["explicit"]:
            kw["name"] = e["name"]
        elif e["id"]:
            kw["id"] = e["id"]
        yield p.DataSetParameters(
            num_publishers=e["p"], largest_publisher_size=e["largest"],
            largest_to_smallest_publisher_ratio=e["num"] / e["den"],
            pricing_generator_params=p.GeneratorParameters("Fixed", FixedPriceGenerator, {"cost_per_impression": e["cpi"]}),
            impression_generator_params=p.GeneratorParameters(e["imp"][0], IMP[e["imp"][0]], dict(e["imp"][1])),
            overlap_generator_params=p.GeneratorParameters(e["ovr"][0], OVR[e["ovr"][0]], dict(e["ovr"][1])),
            **kw)

def generate_data_design_config(random_generator):
    if S["config_draws"]:
        random_generator.random()
    return entries() if S["lazy"] else list(entries())
'''


def rank(price, cpi):
    v = float(price) / cpi
    n = int(round(v))
    return n if abs(v - n) <= 1e-7 * max(1, n) else BADINT


def stored(root):
    out = {}
    for ds in sorted(os.listdir(root)):
        d = {}
        for fn in sorted(os.listdir(os.path.join(root, ds))):
            with open(os.path.join(root, ds, fn)) as f:
                d[fn] = [(int(x.split(",")[0]), float(x.split(",")[1])) for x in f.read().splitlines()]
        out[ds] = d
    return out


def imp_class(kind):
    from wfa_planning_evaluation_framework.data_generators import (
        homogeneous_impression_generator as a, heterogeneous_impression_generator as b,
        heavy_tailed_impression_generator as c)

    return {"Homogeneous": a.HomogeneousImpressionGenerator, "Heterogeneous": b.HeterogeneousImpressionGenerator,
            "HeavyTailed": c.HeavyTailedImpressionGenerator}[kind]


def tail_source(seed):
    """A random source whose draws are often far out, though possible."""
    import numpy as np

    class Tail(np.random.Generator):
        def _far(self, v, values, size):
            if size is None:
                return type(v)(values[int(self.integers(len(values)))]) if self.random() < 0.1 else v
            out = np.array(v)
            for i in range(out.size):
                if self.random() < 0.1:
                    out.flat[i] = values[int(self.integers(len(values)))]
            return out

        def zipf(self, a, size=None):
            return self._far(super().zipf(a, size), [256, 999, 1000, 1001, 1024, 2000, 4096], size)

        def poisson(self, lam=1.0, size=None):
            return self._far(super().poisson(lam, size), [0, 0, 99, 100, 255, 1023], size)

        def gamma(self, shape, scale=1.0, size=None):
            return self._far(super().gamma(shape, scale, size), [0.0, 1e-300, 50.0, 300.0], size)

    return Tail(np.random.PCG64(seed))


def drive_logs(script):
    import numpy as np
    from wfa_planning_evaluation_framework.data_generators.fixed_price_generator import FixedPriceGenerator

    tr = []
    rng = tail_source(script["seed"]) if script["tail"] else np.random.default_rng(script["seed"])
    for q in script["ops"]:
        kw = dict(q["params"])
        if q["given"]:
            kw["random_generator"] = rng
        ok, v = call(lambda: imp_class(q["kind"])(n=q["n"], **kw)())
        ev = {"op": "impressions", "ok": ok, "n": q["n"]}
        if not ok:
            ev["err"] = v
            tr.append(ev)
            continue
        ev["log"] = as_ints(v)
        tr.append(ev)
        cpi = q["cpi"]
        before = list(v)
        ok, w = call(lambda: FixedPriceGenerator(cpi)(v))
        ev = {"op": "pricing", "ok": ok, "log": as_ints(before), "unchanged": list(v) == before}
        if ok:
            ev["priced"] = [{"u": as_int(a), "p": rank(b, cpi)} for a, b in w]
        else:
            ev["err"] = w
        tr.append(ev)
    return tr


def drive_design(script):
    import random
    import numpy as np
    from wfa_planning_evaluation_framework.data_generators.synthetic_data_design_generator import (
        SyntheticDataDesignGenerator,
    )

    tmp = tempfile.mkdtemp(prefix="verif_c05_")
    tr = []
    try:
        if script.get("shipped"):
            import importlib

            cfg = importlib.import_module(
                "wfa_planning_evaluation_framework.data_generators." + script["shipped"]).__file__
        else:
            cfg = os.path.join(tmp, "config.py")
            with open(cfg, "w") as f:
                f.write(CONFIG_FILE % json.dumps(script))

        def noise(k):
            np.random.seed(k)
            np.random.rand(k % 5)
            random.seed(k)

        def gen(out):
            return SyntheticDataDesignGenerator(out, cfg, script["seed"], False)()

        noise(script["noise"])
        if script["other"]:
            call(lambda: SyntheticDataDesignGenerator(os.path.join(tmp, "other"), cfg, script["seed"] + 1, False)())
        a = os.path.join(tmp, "a")
        ok, d = call(gen, a)
        if script.get("shipped"):
            np.random.seed(script["seed"])
            mod = {}
            exec(compile(open(cfg).read(), cfg, "exec"), mod)
            params = list(mod["generate_data_design_config"](np.random.default_rng(script["seed"])))
            ents = []
            for q in params:
                r = {0.9: (9, 10), 0.5: (1, 2), 0.1: (1, 10), 1: (1, 1)}[q.largest_to_smallest_publisher_ratio]
                ents.append(dict(name=str(q), p=q.num_publishers, largest=q.largest_publisher_size, num=r[0], den=r[1],
                                 cpi=q.pricing_generator_params.params["cost_per_impression"],
                                 ovr=[q.overlap_generator_params.name.replace("FullOverlap", "Full")]))
        else:
            ents = script["entries"]
        ev = {"op": "design", "ok": ok,
              "config": [{k: e[k] for k in ("name", "p", "largest", "num", "den")} for e in ents],
              "coarse": bool(script.get("shipped"))}
        if not ok:
            ev["err"] = d
            return [ev]
        st = stored(a)
        ev["listed"] = as_int(len(d.names))
        ev["got"] = []
        by = {e["name"]: e for e in ents}
        for name in sorted(st):
            e = by.get(name)
            sizes, logs = [], []
            for i in range(len(st[name])):
                log = st[name].get(str(i + 1), [])
                sizes.append(len(set(u for u, _ in log)))
                if e and e["ovr"][0] == "Full" and len(log) <= 400:
                    # events in the order of their price
                    logs.append({"n": sizes[-1], "log": [
                        {"u": as_int(u), "p": rank(p, e["cpi"])} for u, p in sorted(log, key=lambda x: x[1])]})
            ev["got"].append({"name": name, "sizes": sizes, "logs": logs})
        tr.append(ev)
        noise(script["noise"] + 17)
        if script["other"]:
            imp_class("Homogeneous")(5, 1.0)()
        b = os.path.join(tmp, "b")
        ok, d2 = call(gen, b)
        tr.append({"op": "repeat", "ok": ok, "err": "" if ok else d2, "same": ok and stored(b) == st})
        return tr
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


IMPS = [("Homogeneous", {"poisson_lambda": 0.0}), ("Homogeneous", {"poisson_lambda": 0.5}),
        ("Homogeneous", {"poisson_lambda": 3.0}), ("Heterogeneous", {}),
        ("Heterogeneous", {"gamma_shape": 0.05, "gamma_scale": 11}),
        ("Heterogeneous", {"gamma_shape": 4.0, "gamma_scale": 0.5}),
        ("HeavyTailed", {"zeta_s": 2.5}), ("HeavyTailed", {"zeta_s": 5.0})]
CPIS = [0.1, 1, 0.25, 1.0 / 3, 1e-6, 1234.5]


def run(ctx):
    ctx.rule = ("every configuration list of the bounded specification and seeded longer ones, each generated twice; "
                "impression and pricing generators over seeded sizes and parameters; non-trivial: more than one user")
    ctx.model_check("MCSynthetic")
    gen = ctx.generate("SyntheticGen")
    rng = ctx.rng("c05")
    rng.shuffle(gen)

    def ovr(largest):
        k = rng.choice(["Full", "Full", "Independent", "Sequential"])
        if k == "Full":
            return [k, {}]
        if k == "Independent":
            return [k, {"universe_size": largest + rng.choice([0, 1, 30]), "random_generator": rng.randrange(3)}]
        o = {"order": rng.choice(["original", "reversed", "random"]), "correlated_sets": rng.choice(["all", "one"]),
             "shared_prop": rng.choice([0.0, 0.5, 1.0])}
        if rng.random() < 0.6:
            o["random_generator"] = 1
        return [k, o]

    def entry(e, explicit):
        e = dict(e)
        e.update(cpi=rng.choice(CPIS), imp=rng.choice(IMPS), ovr=ovr(e["largest"]), explicit=explicit, id="")
        return e

    designs = []
    for g in gen[: ctx.pick(350, 3000)]:
        designs.append(dict(entries=[entry(e, True) for e in g["config"]], lazy=rng.random() < 0.5,
                            config_draws=rng.random() < 0.3, seed=rng.randrange(1000), noise=rng.randrange(10**6),
                            other=rng.random() < 0.3))
    for i in range(ctx.pick(120, 1500)):
        es = []
        for k in range(rng.randint(1, 5)):
            p = rng.choice([1, 2, 3, 4, 5])
            cap = {1: 400, 2: 400, 3: 400, 4: 100, 5: 40}[p]
            r = rng.choice([(1, 1), (9, 10), (1, 2), (1, 10), (1, 4), (1, 100), (3, 4)])
            e = entry(dict(name="d %d" % k if rng.random() < 0.9 else "d 0", p=p, largest=rng.randint(1, cap),
                           num=r[0], den=r[1]), True)
            es.append(e)
        designs.append(dict(entries=es, lazy=rng.random() < 0.5, config_draws=rng.random() < 0.3,
                            seed=rng.randrange(1000), noise=rng.randrange(10**6), other=rng.random() < 0.3))
    for i in range(ctx.pick(24, 200)):  # larger audiences, of one impression each
        es = []
        for k in range(rng.randint(1, 2)):
            p = rng.choice([2, 3, 3, 4])
            r = rng.choice([(1, 1), (9, 10), (1, 2), (1, 10), (1, 4), (3, 4)])
            e = entry(dict(name="d %d" % k, p=p, largest=rng.randint(*{2: (1000, 30000), 3: (1000, 12000), 4: (100, 500)}[p]), num=r[0], den=r[1]), True)
            e.update(imp=("Plain", {}), ovr=["Full", {}])
            es.append(e)
        designs.append(dict(entries=es, lazy=rng.random() < 0.5, config_draws=False, seed=rng.randrange(1000), noise=rng.randrange(10**6), other=False))
    # publishers whose audience shrinks to nothing are not meaningful
    def ok_sizes(e):
        s = e["largest"]
        for _ in range(e["p"] - 1):
            s = int(s * (e["num"] / e["den"]) ** (1.0 / (e["p"] - 1)) + 1e-9)
        return s >= 2 or (e["p"] == 1 and s >= 1)

    designs = [d for d in designs if all(ok_sizes(e) for e in d["entries"])]
    shipped = ["lhs_data_design_example", "simple_data_design_example"]
    for s in shipped[: ctx.pick(1, 2)]:
        designs.insert(0, dict(shipped=s, seed=ctx.seed, noise=3, other=False, entries=[]))
    logs = []
    for i in range(ctx.pick(150, 2000)):
        ops = []
        for _ in range(4):
            kind, params = rng.choice(IMPS)
            ops.append(dict(kind=kind, params=params, n=rng.choice([0, 1, 2, 3, 10, 60]), given=rng.random() < 0.7,
                            cpi=rng.choice(CPIS)))
        logs.append(dict(ops=ops, seed=rng.randrange(10**6), tail=i % 4 == 0))
    traces = ctx.pmap(drive_design, designs, seconds=200) + ctx.pmap(drive_logs, logs, seconds=100)

    def nt(t):
        e = t[0]
        return e["op"] == "impressions" or (e.get("got") or False)

    ctx.validate("SyntheticTrace", traces, nontrivial=nt)
    ctx.assumptions = ["the set generators of the missing cardinality-estimation library are replaced by the stand-ins in shims/",
                       "publisher sizes are recomputed exactly over rationals; when the exact value is an integer the "
                       "next lower integer is accepted too (floating-point root)"]
