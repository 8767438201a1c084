"""C21: identity of trials against TrialIdentity.tla."""
import copy
import io

from vlib import call


def config_record(d):
    """The configuration as the specification sees it: every field as text."""
    m, s, e = d.modeling_strategy, d.system_params, d.experiment_params
    kw = lambda x: [[str(k), repr(v)] for k, v in x.items()]
    return {
        "strategy": m.strategy, "kw": kw(m.strategy_kwargs),
        "spm": m.single_pub_model, "spkw": kw(m.single_pub_model_kwargs),
        "mpm": m.multi_pub_model, "mpkw": kw(m.multi_pub_model_kwargs),
        "spends": [repr(float(x)) for x in s.campaign_spend_fractions],
        "decay": repr(s.liquid_legions.decay_rate), "size": repr(s.liquid_legions.sketch_size),
        "hash": repr(s.liquid_legions.random_seed),
        "epsilon": repr(e.privacy_budget.epsilon), "delta": repr(e.privacy_budget.delta),
        "replica": repr(e.replica_id), "maxfreq": repr(e.max_frequency),
        "tps": e.test_point_strategy, "tpkw": kw(e.test_point_strategy_kwargs),
        "generates": bool(s.campaign_spend_fractions_generator),
    }


def descriptor(c, fractions=None):
    import numpy as np
    from wfa_planning_evaluation_framework.driver.experiment_parameters import ExperimentParameters
    from wfa_planning_evaluation_framework.driver.modeling_strategy_descriptor import ModelingStrategyDescriptor
    from wfa_planning_evaluation_framework.driver.trial_descriptor import TrialDescriptor
    from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyBudget
    from wfa_planning_evaluation_framework.simulator.system_parameters import LiquidLegionsParameters, SystemParameters

    c = copy.deepcopy(c)
    gen = (lambda ds: [c["spends"][0]] * ds.publisher_count) if fractions else None
    return TrialDescriptor(
        ModelingStrategyDescriptor(c["strategy"], dict(c["kw"]), c["spm"], dict(c["spkw"]), c["mpm"], dict(c["mpkw"])),
        SystemParameters([0] if fractions else c["spends"], LiquidLegionsParameters(c["decay"], c["size"], c["hash"]),
                         np.random.default_rng(c["hash"]), gen),
        ExperimentParameters(PrivacyBudget(c["epsilon"], c["delta"]), c["replica"], c["maxfreq"], c["tps"], dict(c["tpkw"])),
    )


class Design:
    def __init__(self, counts):
        from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
        from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData

        self.sets = {}
        for name, n in counts:
            self.sets[name] = DataSet([PublisherData([(1, 1.0), (2, 2.0)], "p%d" % i) for i in range(n)], name)
        self.names = sorted(self.sets)
        self.count = len(self.names)

    def by_name(self, name):
        return self.sets[name]


def asked_location(trial):
    """Where the trial looks for its result, and what it returns when something is there."""
    from wfa_planning_evaluation_framework.filesystem_wrappers.filesystem_pathlib_wrapper import FilesystemPathlibWrapper

    class Store(FilesystemPathlibWrapper):
        asked = None

        def is_file(self, path):
            if "/pending/" in str(path):  # no evaluation was cut short
                return False
            self.asked = str(path)
            return True

        exists = is_file

        def open(self, path, *a, **k):
            self.asked = str(path)
            return io.StringIO("at\n\"%s\"\n" % str(path).replace('"', '""'))

        def _no(self, *a, **k):
            raise PermissionError("the result is already stored")

        write_text = mkdir = unlink = _no

    st = Store()
    df = trial.evaluate(1, st)
    return st.asked or "none", str(df["at"].iloc[0])


def drive(script):
    import pandas_env

    pandas_env.patch()
    from wfa_planning_evaluation_framework.driver.experiment import Experiment
    from wfa_planning_evaluation_framework.driver.experimental_design import ExperimentalDesign
    from wfa_planning_evaluation_framework.driver.experimental_trial import ExperimentalTrial

    out = [{"op": "reset"}]
    design = Design(script["sets"])

    def name(ds, d):
        def go():
            at, served = asked_location(ExperimentalTrial(script["dir"], design, ds, d, analysis_type=script["analysis"]))
            return str(d), at, served

        ok, v = call(go)
        ev = {"op": "trial", "ok": ok, "err": "" if ok else v, "ds": ds, "cfg": config_record(d)}
        if ok:
            ev.update(name=v[0], at=v[1], served=v[2])
        out.append(ev)

    if script["op"] == "names":
        ds = [n for n, _ in script["sets"]]
        for i, c in enumerate(script["configs"]):
            d = descriptor(c)
            name(ds[i % len(ds)], d)
            if i % 3 == 0:
                name(ds[(i + 1) % len(ds)], d)
            if i % 4 == 0:  # built again, and after its random source was used
                d2 = descriptor(c)
                d2.system_params.generator.random(5)
                name(ds[i % len(ds)], d2)
        return out
    # specialisation, in the given order
    templates = [descriptor(c, script["generates"]) for c in script["configs"]]
    def spoil(d):
        """What a caller may do to its own copy."""
        m = d.modeling_strategy
        for kw in (m.strategy_kwargs, m.single_pub_model_kwargs, m.multi_pub_model_kwargs, d.experiment_params.test_point_strategy_kwargs):
            kw["spoilt"] = 1
            for v in kw.values():
                if isinstance(v, list):
                    v.append(9)
        d.system_params.campaign_spend_fractions.append(0.77)

    for t, k in script["log"]:
        tpl = templates[t % len(templates)]
        dsname = design.names[k % len(design.names)]
        data = design.by_name(dsname)
        before = config_record(tpl)
        ok, got = call(tpl.update_from_dataset, data)
        ev = {"op": "specialise", "ok": ok, "err": "" if ok else got, "before": before, "after": config_record(tpl),
              "npub": data.publisher_count, "kept": data.publisher_count == dict(script["sets"])[dsname] and data.name == dsname,
              "fractions": [repr(float(script["configs"][t % len(templates)]["spends"][0]))] * data.publisher_count}
        if ok:
            ev["got"] = config_record(got)
        out.append(ev)
        if ok:
            name(dsname, got)
            if script["spoil"]:
                spoil(got)
                out.append({"op": "spoil", "ok": True, "before": before, "after": config_record(tpl)})
    # a whole design with repeated configurations
    lst = [templates[i % len(templates)] for i in script["repeat"]]
    want = sorted(set("%s::%s" % (n, t.update_from_dataset(design.by_name(n))) for n in design.names for t in lst))
    ed = ExperimentalDesign(script["dir"], design, lst, analysis_type=script["analysis"])
    ok, trials = call(lambda: ["%s::%s" % (t._data_set_name, t._trial_descriptor) for t in ed.generate_trials()])
    out.append({"op": "count", "ok": ok, "got": trials if ok else [], "want": want})
    for n in design.names:
        ok, trials = call(lambda: Experiment(script["dir"], design, n, lst).generate_trials())
        if ok:
            for t in trials:
                name(n, t._trial_descriptor)
    return out


def run(ctx):
    ctx.rule = ("orders of specialisation of the bounded specification; seeded families of configurations that differ in one or several "
                "fields by confusable values; non-trivial: at least ten different trials named")
    ctx.model_check("MCTrialIdentity", constants={"Names": ctx.pick('{"m3"}', '{"m3", "sp"}')})
    gen = ctx.generate("TrialIdentityGen")
    rng = ctx.rng("c21")
    NUM = [0, 1, 2, 3, 10, 11, 12, 21, 100, 101]
    FR = [0.1, 0.2, 0.12, 0.121, 0.1210001, 0.12100001, 0.3, 0.1 + 0.2, 1.0, 0.0, 1e-7, 1.0000001e-7, 0.05, 0.5, 1 / 3.0, 0.3333333]
    pools = {
        "strategy": ["m3strategy", "single_publisher", "m3", "m3strategy2"],
        "spm": ["goerg", "gamma_poisson", "kinflated_gamma_poisson"],
        "mpm": ["pairwise_union", "restricted_pairwise_union", "none"],
        "decay": [10, 12, 12.5, 1, 2, 120],
        "size": [1e5, 100000, 1000, 10000, 100001, 8000, 2e5, 21000.0, 1234567, 1234568],
        "hash": [1, 2, 3, 12],
        "epsilon": [0.1, 0.01, 0.010001, 1.0, 11.0, 0.5, 1e-9, 1.1e-9, 0.12345678, 0.12345679],
        "delta": [1e-5, 1e-9, 1.1e-9, 0.0, 1.00000001e-5, 0.12345678],
        "replica": NUM, "maxfreq": [1, 2, 5, 10, 11, 20],
        "tps": ["latin_hypercube", "uniformly_random", "grid"],
    }
    VALS = [0, 1, 2, 10, 0.1, 0.12, 1e-6, 1.01e-6, 0.1234567, 0.1234568, True, False, None, "x", "y", [1, 2], [1, 2, 3], -1]
    KEYS = ["a", "b", "ab", "alpha", "x"]

    def kwargs():
        return [[k, rng.choice(VALS)] for k in rng.sample(KEYS, rng.choice([0, 0, 1, 1, 2, 3]))]

    def tpkw():
        r = rng.random()
        if r < 0.3:
            return []
        if r < 0.5:
            return [["grid_size", rng.choice([2, 5, 10])]]
        return [["npoints", rng.choice([1, 10, 100, 1000])]] + ([["npublishers", rng.choice([1, 2, 3, 11])]] if rng.random() < 0.6 else []) \
            + ([["minimum_points_per_publisher", rng.choice([1, 20, 200])]] if rng.random() < 0.4 else [])

    def fractions(n):
        return [rng.choice(FR) for _ in range(n)]

    def config(n):
        c = {k: rng.choice(v) for k, v in pools.items()}
        c.update(kw=kwargs(), spkw=kwargs(), mpkw=kwargs(), tpkw=tpkw(), spends=fractions(n))
        return c

    def vary(c, n):
        c = copy.deepcopy(c)
        for _ in range(rng.choice([1, 1, 1, 2])):
            f = rng.choice(list(pools) + ["kw", "spkw", "mpkw", "tpkw", "spends", "value", "move", "swap", "spend1", "near", "near"])
            if f in pools:
                c[f] = rng.choice(pools[f])
            elif f == "spends":
                c["spends"] = fractions(n)
            elif f == "spend1":
                c["spends"][rng.randrange(len(c["spends"]))] = rng.choice(FR)
            elif f == "near":  # a value that agrees with the old one in its first digits
                by = 1 + 10.0 ** -rng.randint(2, 13)
                t = rng.choice(["epsilon", "delta", "decay", "spends", "spends", "kw", "spkw", "mpkw"])
                if t == "spends":
                    i = rng.randrange(len(c[t]))
                    c[t][i] *= by
                elif t in ("kw", "spkw", "mpkw"):
                    for x in c[t]:
                        if isinstance(x[1], float):
                            x[1] *= by
                else:
                    c[t] *= by
            elif f == "tpkw":
                c["tpkw"] = tpkw()
            elif f in ("kw", "spkw", "mpkw"):
                c[f] = kwargs()
            elif f == "value":
                t = rng.choice(["kw", "spkw", "mpkw"])
                if c[t]:
                    c[t][rng.randrange(len(c[t]))][1] = rng.choice(VALS)
            elif f == "move":
                a, b = rng.sample(["kw", "spkw", "mpkw"], 2)
                c[a], c[b] = c[b], c[a]
            else:
                c["replica"], c["maxfreq"] = c["maxfreq"], c["replica"]
        return c

    scripts = []
    sets = lambda: rng.choice([[("d1", 1), ("d11", 2)], [("a", 2), ("b", 2), ("ab", 2)], [("ds=1", 3), ("ds=2", 1)], [("v1.0", 1), ("v1.5", 1), ("v1", 1)], [("a", 1), ("A", 1)],
                               [("a b", 1), ("a_b", 1), ("a", 1)]])
    for _ in range(ctx.pick(60, 900)):
        n = rng.choice([1, 2, 3, 3, 24])
        c = config(n)
        fam = [c] + [vary(c, n) for _ in range(ctx.pick(25, 40))] + [vary(config(n), n) for _ in range(4)]
        rng.shuffle(fam)
        scripts.append({"op": "names", "configs": fam, "sets": sets(), "dir": rng.choice(["/x/trials", "/x", "gsx/y"]),
                        "analysis": rng.choice(["", "single_pub"])})
    for g in rng.sample(gen, min(len(gen), ctx.pick(150, 1000))):
        n = rng.choice([1, 2])
        cs = [config(n)]
        cs.append(vary(cs[0], n))
        if g["n"]:
            for c in cs:
                c["tpkw"] = [["npoints", 7], ["npublishers", rng.choice([0, 1, 5])]]
        scripts.append({"op": "specialise", "spoil": rng.random() < 0.3, "configs": cs, "generates": g["generates"], "sets": [("d1", rng.choice([1, 3])), ("d2", 2)],
                        "log": [[t - 1, int(d[1]) - 1] for t, d in g["log"]], "dir": "/x/y", "analysis": "",
                        "repeat": [rng.randint(0, 1) for _ in range(rng.choice([1, 3, 5]))]})
    traces = ctx.pmap(drive, scripts, seconds=120)
    ctx.log("ran %d scripts" % len(scripts))
    ctx.validate("TrialIdentityTrace", traces,
                 nontrivial=lambda t: len(set(e.get("at") for e in t)) > 5)
    ctx.assumptions = ["argument values are numbers, booleans, None, lists of numbers or strings without the name's own punctuation; "
                       "equal configurations are built from the same literal values in the same order"]
