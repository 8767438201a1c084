"""C07: PrivacyTracker against PrivacyLog.tla."""
import math

from vlib import call, BADINT

UNITS = [(1.0, 1.0), (0.125, 2.0 ** -30), (0.1, 1e-9), (math.log(3) / 7, 1e-5), (3.0, 0.0)]


def near(x, unit):
    """x as a multiple of unit, allowing for rounding in sums."""
    try:
        if unit == 0:
            return 0 if x == 0 else BADINT
        v = float(x) / unit
        n = int(round(v))
        return n if abs(v - n) <= 1e-6 * max(1, abs(n)) else BADINT
    except Exception:
        return BADINT


def drive(script):
    from wfa_planning_evaluation_framework.simulator.privacy_tracker import (
        NoisingEvent, PrivacyBudget, PrivacyTracker, SamplingBucketIndices,
    )

    g = script["g"]
    eu, du = UNITS[script["unit"]]
    t = PrivacyTracker()
    tr = [{"op": "new", "ok": True, "g": g}]
    for q in script["ops"]:
        op = q[0]
        ev = {"op": op, "ok": True}
        if op == "record":
            e = q[1]
            ev.update(s=e["s"], r=e["r"], eps=e["eps"], del_=0, mech=q[2])
            ev["del"] = e["del"] if du else 0
            ev.pop("del_")
            b = PrivacyBudget(e["eps"] * eu, e["del"] * du)
            args = [b, q[2], {"n": 1}]
            if not (e["s"] == 0 and e["r"] == g and q[3]):
                args.append(SamplingBucketIndices(e["s"] / float(g), e["r"] / float(g)))
            ok, v = call(lambda: t.append(NoisingEvent(*args)))
        elif op == "total":
            ok, v = call(lambda: t.privacy_consumption)
            if ok:
                ev["eps"], ev["del"] = near(v.epsilon, eu), near(v.delta, du)
        elif op == "bucket":
            ev["b"] = q[1]
            ok, v = call(lambda: t.privacy_consumption_for_sampling_bucket(q[1] / (2.0 * g)))
            if ok:
                ev["eps"], ev["del"] = near(v.epsilon, eu), near(v.delta, du)
        elif op == "mechanisms":
            ok, v = call(lambda: list(t.mechanisms))
            ev["val"] = v if ok else []
        else:  # contains
            e = q[1]
            ev.update(s=e["s"], r=e["r"], b=q[2])
            ok, v = call(lambda: SamplingBucketIndices(e["s"] / float(g), e["r"] / float(g)).contains(q[2] / (2.0 * g)))
            ev["val"] = bool(v)
        ev["ok"] = ok
        if not ok:
            ev["err"] = v
        tr.append(ev)
    return tr


MECHS = ["Laplace", "Discrete Laplace", "Gaussian", "Discrete Gaussian", "other"]


def run(ctx):
    ctx.rule = (
        "every event log of the bounded specification and seeded longer ones on finer circles, with total, per-bucket and "
        "mechanism reports interleaved; non-trivial: two events that do not all cover everybody"
    )
    ctx.model_check("PrivacyLog", constants={"MaxEvents": 2})
    if ctx.thorough:
        ctx.model_check("PrivacyLog", constants={"MaxEvents": 3, "Eps": "{1}", "Del": "{0, 1}"})
    gen = ctx.generate("PrivacyLogGen", constants={"MaxEvents": 2})
    gen += ctx.generate("PrivacyLogGen", constants={"MaxEvents": ctx.pick(2, 3), "G": 2, "Eps": "{1, 2}", "Del": "{0, 1}"})
    rng = ctx.rng("c07")
    scripts = []

    def ops_for(events, g, dense):
        ops = [["total"], ["mechanisms"]]
        for e in events:
            ops.append(["record", e, rng.choice(MECHS), rng.random() < 0.5])
            ops.append(["total"])
            if dense or rng.random() < 0.3:
                ops.append(["bucket", rng.randrange(2 * g)])
        bs = range(2 * g) if g <= 4 else rng.sample(range(2 * g), 8)
        ops += [["bucket", b] for b in bs]
        ops += [["contains", rng.choice(events), rng.randrange(2 * g)] for _ in range(2)] if events else []
        ops += [["mechanisms"], ["total"]]
        return ops

    for i, lg in enumerate(gen):
        g = 4 if i < 400 else 2
        scripts.append({"g": g, "unit": i % len(UNITS), "ops": ops_for(lg, g, True)})
    for i in range(ctx.pick(300, 6000)):
        g = rng.choice([1, 2, 8, 16, 64, 1024])
        n = rng.choice([0, 1, 2, 3, 5, 8, 20])
        ev = []
        for _ in range(n):
            r = rng.choice([g, g, rng.randint(0, g), rng.randint(0, g), 1, max(0, g - 1)])
            ev.append({"s": rng.choice([0, rng.randrange(g), g - 1]), "r": r, "eps": rng.randint(0, 5), "del": rng.randint(0, 3)})
        scripts.append({"g": g, "unit": rng.randrange(len(UNITS)), "ops": ops_for(ev, g, False)})
    traces = ctx.pmap(drive, scripts, seconds=100)
    # total over a fine circle only needs the cells where something changes; TLC takes all of them

    def nt(t):
        rec = [e for e in t if e["op"] == "record"]
        return len(rec) >= 2 and any(e["r"] < t[0]["g"] for e in rec)

    ctx.validate("PrivacyLogTrace", traces, nontrivial=nt)
    ctx.assumptions = ["bucket positions are multiples of a power of two, so interval ends are exact"]
