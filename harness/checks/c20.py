"""C20: error metrics against Metrics.tla."""
import math

from vlib import call, as_int, BADINT

L = 60
SD = 4000
MISSING = -888888888
DIVISORS = [d for d in range(1, L + 1) if L % d == 0]


def times(v, den):
    """v * den, which the specification says is an integer."""
    try:
        v = float(v)
    except Exception:
        return BADINT
    if math.isnan(v):
        return MISSING
    v *= den
    if not math.isfinite(v) or abs(v) >= 2**31 - 1 or abs(v - round(v)) > 1e-6 + 1e-9 * abs(v):
        return BADINT
    return int(round(v))


def near(v, den):
    try:
        v = float(v)
        return int(round(v * den)) if abs(v * den) < 2**31 - 1 else BADINT
    except Exception:
        return BADINT


def drive(script):
    import numpy as np
    from wfa_planning_evaluation_framework.models.reach_point import ReachPoint
    from wfa_planning_evaluation_framework.driver.test_point_aggregator import aggregate, aggregate_on_exception

    f = script["factor"]
    typ = {"int": int, "float": float, "np": np.int64, "np32": np.float64}[script["type"]]
    mk = lambda p: ReachPoint([7], [typ(r * f) for r in p], [1.0])
    made = {}  # the same point may stand at several places of the lists
    get = (lambda p: made.setdefault(str(p), mk(p))) if script["share"] else mk
    xs, ys = [get(p) for p in script["xs"]], [get(p) for p in script["ys"]]
    n = len(xs)
    ok, df = call(aggregate, xs, ys)
    ev = {"op": "stats", "ok": ok, "err": "" if ok else df, "xs": script["xs"], "ys": script["ys"]}
    out = [ev]
    if ok:
        g = lambda k: df[k].iloc[0] if k in df.columns else "absent"
        f2 = float(f) * f

        def div(v, by):
            try:
                return float(v) / by
            except Exception:
                return v

        ev["rows"] = int(df.shape[0])
        ev["kept"] = bool([list(p._kplus_reaches) for p in xs] == [[r * f for r in p] for p in script["xs"]]
                          and [list(p._kplus_reaches) for p in ys] == [[r * f for r in p] for p in script["ys"]])
        ev["succeeded"] = as_int(g("model_succeeded"))
        ev["exception"] = str(g("model_exception"))
        ev["s"] = {
            "npoints": as_int(g("npoints")),
            "mean_error": times(div(g("mean_error"), f), n),
            "mean_abs_error": times(div(g("mean_abs_error"), f), n),
            "mean_squared_error": times(div(g("mean_squared_error"), f2), n),
            "var_error": times(div(g("var_error"), f2), n * n),
            "mean_abs_relative_error": times(g("mean_abs_relative_error"), n * L),
            "mean_squared_relative_error": times(g("mean_squared_relative_error"), n * L * L),
            "var_relative_error": times(g("var_relative_error"), n * n * L * L),
            "q": [times(g("relative_error_q%d0" % q), 10 * L) for q in range(1, 10)],
            "mare": [times(g("mare_freq_at_least_%d" % k), n * L) for k in range(2, 10)],
            "mean_shuffle": near(g("mean_shuffle_distance"), SD),
            "mean_sq_shuffle": near(g("mean_squared_shuffle_distance"), SD),
            "var_shuffle": near(g("var_shuffle_distance"), SD),
        }
    if script["failure"]:
        text = script["failure"]
        ok2, fd = call(aggregate_on_exception, text)
        ev = {"op": "failure", "ok": ok2 and ok}
        if ok and ok2:
            ev.update(columns=[str(c) for c in fd.columns], expected=[str(c) for c in df.columns], rows=int(fd.shape[0]),
                      succeeded=as_int(fd["model_succeeded"].iloc[0]), text=bool(fd["model_exception"].iloc[0] == text),
                      missing=bool(all(isinstance(fd[c].iloc[0], float) and math.isnan(fd[c].iloc[0])
                                       for c in fd.columns if c not in ("model_succeeded", "model_exception"))))
        out.append(ev)
    return out


def run(ctx):
    ctx.rule = ("every list of point pairs of the bounded specification and seeded longer ones with up to twelve frequencies, exact "
                "rational comparison; non-trivial: at least two points with different errors")
    ctx.model_check("Metrics", constants={"TrueReaches": ctx.pick("{1, 3, 6}", "{1, 2, 3, 6, 12}"),
                                          "ModelReaches": ctx.pick("{0, 3, 12}", "{0, 1, 3, 5, 12}")})
    gen = ctx.generate("MetricsGen", constants={"L": 60, "TrueReaches": ctx.pick("{1, 6}", "{1, 6, 60}")})
    rng = ctx.rng("c20")
    if len(gen) > ctx.pick(800, 8000):
        gen = rng.sample(gen, ctx.pick(800, 8000))
    scripts = []

    def script(xs, ys):
        scripts.append({"xs": xs, "ys": ys, "factor": rng.choice([1, 1, 2, 1000, 2**20, 10**6, 16777259]),
                        "type": rng.choice(["int", "float", "np", "np32"]), "share": rng.random() < 0.3,
                        "failure": rng.choice(["", "", "boom", "line\nbreak, comma", "None"])})

    for g in gen:
        script(g["xs"], g["ys"])
    for _ in range(ctx.pick(1200, 12000)):
        n = rng.choice([1, 2, 3, 4, 7, 9, 10])
        style = rng.choice(["mixed", "same", "same", "six"])
        F = {"same": rng.randint(1, 12), "six": 6}.get(style)
        xs, ys = [], []
        for _ in range(n):
            fx = F or rng.randint(1, 12)
            fy = F or rng.randint(1, 12)
            k = rng.random()
            x = sorted((rng.choice(DIVISORS) for _ in range(fx)), reverse=True)
            if rng.random() < 0.15:
                x = [x[0]] * fx  # nobody at the first frequencies
            elif rng.random() < 0.3 and fx > 2:
                x = x[: fx - 2] + [0] * 2
            if k < 0.15 and fx == fy:
                y = list(x)
            else:
                top = rng.choice([6, 30, 60])
                y = sorted((rng.randint(0, top) for _ in range(fy)), reverse=True)
                if rng.random() < 0.1:
                    y = [y[0]] * fy
                if rng.random() < 0.05:
                    y = [0] * fy
            xs.append(x)
            ys.append(y)
        script(xs, ys)
    for _ in range(ctx.pick(60, 1000)):  # many points
        n = rng.choice([11, 21, 40, 100])
        F = rng.choice([1, 2, 6, 10])
        xs = [sorted((rng.choice([60, 30, 20]) for _ in range(F)), reverse=True) for _ in range(n)]
        ys = [sorted((rng.choice([60, 45, 30, 7]) for _ in range(F)), reverse=True) for _ in range(n)]
        script(xs, ys)
    traces = ctx.pmap(drive, scripts, seconds=100)
    ctx.log("ran %d scripts" % len(scripts))
    ctx.validate("MetricsTrace", traces, nontrivial=lambda t: len(set(x[0] - y[0] for x, y in zip(t[0]["xs"], t[0]["ys"]))) > 1)
    ctx.assumptions = ["true reaches divide 60 (times a common factor), so every statistic is an exact fraction",
                       "the value of a relative error at a frequency with true reach 0 is left open"]
