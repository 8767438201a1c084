"""C24: the designs that ship with the framework against ShippedDesigns.tla."""
import hashlib
import importlib

from checks.c19 import fast_distances
from vlib import call

BASE = "wfa_planning_evaluation_framework."
DATA = {"data_simple": "simple_data_design_example", "data_analysis": "analysis_example_data_design",
        "data_single": "single_publisher_design", "data_lhs": "lhs_data_design_example", "data_m3": "m3_data_design"}
TRIALS = {"trials_sample": "sample_experimental_design", "trials_analysis": "analysis_example_experimental_design",
          "trials_m3": "m3_first_round_experimental_design", "trials_single": "single_publisher_design"}
RATIOS = {1: 0.9, 2: 0.75, 3: 0.5, 4: 0.25}  # overlaps of the M3 data design, by their random source


def canon(x):
    """Values as text, numbers to nine digits: the same setting has the same text however it is computed."""
    import numbers

    if isinstance(x, bool):
        return str(x)
    if isinstance(x, numbers.Number):
        return "%.9g" % float(x)
    if isinstance(x, dict):
        return "{" + ",".join(sorted("%s=%s" % (k, canon(v)) for k, v in x.items())) + "}"
    if isinstance(x, (list, tuple)):
        return "(" + ",".join(canon(v) for v in x) + ")"
    if isinstance(x, str) or x is None or hasattr(x, "name"):
        return str(getattr(x, "name", x)).lower()
    return repr(x)


def generator(g):
    return (g.generator.__name__, g.params)


def data_entry(design, p):
    o = generator(p.overlap_generator_params)
    fits = True
    if design == "data_m3" and o[0] == "IndependentOverlapDataSet":
        par = p.overlap_generator_params.params
        r = RATIOS.get(par["random_generator"])
        fits = r is not None and abs(par["universe_size"] - p.largest_publisher_size / r) <= 1
        o = (o[0], par["random_generator"])
    return [canon(x) for x in (p.num_publishers, p.largest_publisher_size, p.largest_to_smallest_publisher_ratio,
                               generator(p.pricing_generator_params), generator(p.impression_generator_params), o)], fits


def trial_entry(t):
    m, s, e = t.modeling_strategy, t.system_params, t.experiment_params
    return [canon(x) for x in (
        (m.strategy, m.strategy_kwargs, m.single_pub_model, m.single_pub_model_kwargs, m.multi_pub_model, m.multi_pub_model_kwargs),
        list(s.campaign_spend_fractions), (s.liquid_legions.decay_rate, s.liquid_legions.sketch_size),
        (e.privacy_budget.epsilon, e.privacy_budget.delta), e.replica_id, e.max_frequency,
        (e.test_point_strategy, e.test_point_strategy_kwargs))]


def drive(script):
    import numpy as np
    from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
    from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData

    fast_distances()
    sets = {n: DataSet([PublisherData([(1, 1.0)], "p%d" % i) for i in range(n)], "ds") for n in (1, 2, 7)}
    tr = [{"op": "reset"}]
    for q in script["ops"]:
        d, seed = q["design"], q["seed"]
        if q["prior"]:
            np.random.seed(q["noise"])
            np.random.rand(q["noise"] % 9)
        ev = {"op": "list", "design": d, "seed": seed, "kind": "data" if d in DATA else "trials", "universes": True, "sources": True, "source": "",
              "entries": [], "names": [], "digest": "", "err": ""}
        rows, names = [], []
        if d in DATA:
            m = importlib.import_module(BASE + "data_generators." + DATA[d])
            np.random.seed(seed)  # as the command that generates a design does
            ok, v = call(lambda: list(m.generate_data_design_config(np.random.default_rng(seed))))
            if ok:
                for p in v:
                    r, fits = data_entry(d, p)
                    ev["universes"] = ev["universes"] and fits
                    rows.append(r)
                    names.append(str(p))
        else:
            m = importlib.import_module(BASE + "driver." + TRIALS[d])
            # the trials of a design are applied to every data set; any count shows the same levels
            ds = sets[{"trials_single": 1, "trials_sample": 2}.get(d, 7)]
            ok, v = call(lambda: [t for t in m.generate_experimental_design_config(seed)] if q["noise"] % 2
                         else list(m.generate_experimental_design_config(seed=seed)))
            if ok:
                sources = []
                for t in v:
                    s = t.update_from_dataset(ds)
                    rows.append(trial_entry(s))
                    names.append(str(s))
                    sources.append(repr(s.system_params.generator.bit_generator.state))
                    s.system_params.generator.integers(10)  # no other trial may notice
                # every trial starts from the same state of its own source
                ev["sources"] = len(set(sources)) == 1
                ev["source"] = hashlib.md5("".join(sources[:1]).encode()).hexdigest()
        ev["ok"] = ok
        if not ok:
            ev["err"] = str(v)
        else:
            ev["digest"] = hashlib.md5(repr((rows, names, ev["source"])).encode()).hexdigest()
            ev["entries"] = rows
            ev["names"] = names
        tr.append(ev)
    return tr


def run(ctx):
    ctx.rule = ("every pair of listings of shipped designs (same or different seed, with and without foreign draws before) of the "
                "bounded specification, and seeded longer histories over more seeds; non-trivial: a design is listed twice")
    ctx.model_check("MCShippedDesigns", constants={"Samples": ctx.pick(4, 5)})
    gen = ctx.generate("ShippedDesignsGen")
    rng = ctx.rng("c24")
    rng.shuffle(gen)
    twice = [h for h in gen if h[0]["design"] == h[1]["design"]]
    rest = [h for h in gen if h[0]["design"] != h[1]["design"]]
    scripts = [dict(ops=[dict(o, noise=rng.randrange(100)) for o in h]) for h in twice + rest[: ctx.pick(40, len(rest))]]
    for _ in range(ctx.pick(40, 400)):
        ops = [dict(design=rng.choice(list(DATA) + list(TRIALS)), seed=rng.choice([0, 1, 2, 3, 99, 2**31]), prior=rng.random() < 0.5,
                    noise=rng.randrange(100)) for _ in range(rng.randint(1, 3))]
        ops.insert(rng.randrange(len(ops) + 1), dict(ops[0], noise=rng.randrange(100), prior=True))
        scripts.append(dict(ops=ops))
    traces = ctx.pmap(drive, scripts, seconds=100)
    ctx.validate("ShippedDesignsTrace", traces,
                 nontrivial=lambda t: len(set(e["design"] for e in t[1:])) < len(t) - 1)
    ctx.assumptions = ["the numbers of levels and entries are those announced in the design files at the pinned commit"]
