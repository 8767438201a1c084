"""C14: frequency distributions of the single-publisher models against FrequencyDistribution.tla."""
from vlib import call, scaled, scaleds, as_int

U = 10**8
V = 10**4


def kinflated(script):
    import numpy as np
    from wfa_planning_evaluation_framework.models.kinflated_gamma_poisson_model import KInflatedGammaPoissonDistribution

    out = []
    mass = script["mass"]
    a = [x / float(mass) for x in script["a"]]
    arr = np.array(a) if script["array"] else list(a)
    alpha, beta = script["a4"] / 4.0, script["b4"] / 4.0
    ok, d = call(KInflatedGammaPoissonDistribution, alpha, beta, arr)
    h = script["h"]
    ev = {"op": "pmf", "ok": ok, "a": script["a"], "mass": mass}
    pmf = None
    if ok:
        ok, pmf = call(lambda: np.asarray(d.pmf(np.arange(1000)), dtype=float))
        ev["ok"] = ok
    if not ok:
        return [ev]
    head = scaleds(pmf[: h + 1], U)
    rest = scaled(pmf[h + 1:].sum(), U)
    ev.update(head=head, rest=rest, lowest=scaled(pmf.min(), U), kept=bool(list(arr) == list(a)))
    out.append(ev)
    k = len(a)
    if not script["full"]:  # the tail follows the Gamma-Poisson law
        t = pmf[k + 1: k + 16]
        top = t.max()
        if sum(script["a"]) < mass and top > 1e-5 and script["b4"] <= 20 and script["a4"] <= 40:
            out.append({"op": "tail", "ok": True, "k": k, "a4": script["a4"], "b4": script["b4"],
                        "t": scaleds(t / top, 10**5), "last": scaled(abs(pmf[-1]), U)})
    ks = script["ks"]
    for num, den in script["ps"]:
        p = num / float(den)
        lo, hi = script["lo"], script["hi"]

        def ask():
            kr = [float(x) for x in d.kreach(np.arange(ks + 1), p)]
            kp = [float(d.kplusreach(i, p)) for i in range(ks + 1)]
            part = [float(x) for x in d.kreach(range(lo, hi + 1) if script["array"] else np.arange(lo, hi + 1), p)]
            return kr, kp, part

        ok, v = call(ask)
        ev = {"op": "thin", "ok": ok, "num": num, "den": den, "lo": lo, "hi": hi, "head": head, "rest": rest}
        if ok:
            # a probability close by, on the object that has answered so far and on a new one
            near = min(1.0, p + 3.1e-6) if p < 1 else p - 3.1e-6
            ok1, w1 = call(lambda: [float(x) for x in d.kreach(np.arange(ks + 1), near)])
            ok2, w2 = call(lambda: [float(x) for x in
                                    KInflatedGammaPoissonDistribution(alpha, beta, list(a)).kreach(np.arange(ks + 1), near)])
            ev.update(kr=scaleds(v[0], U), kp=scaleds(v[1], U), part=scaleds(v[2], U),
                      same=bool(call(ask) == (True, v)) and ok1 == ok2 and
                      (not ok1 or max(abs(x - y) for x, y in zip(w1, w2)) < 1e-9))
        out.append(ev)
    if script["law"]:
        n = script["law"]

        def law():
            rows, plus, mean = [], [], []
            top = 40
            for i in range(n + 1):
                p = i / float(n)
                row = [float(x) for x in d.kreach(np.arange(top + 1), p)]
                rows.append(scaleds(row[: h + 1], U))
                plus.append([scaled(float(d.kplusreach(j, p)), U) for j in range(6)])
                mean.append(scaled(sum(j * x for j, x in enumerate(row)), 10**4))
            return rows, plus, mean, scaled(float(d.expected_value()), 10**4)

        ok, v = call(law)
        ev = {"op": "law", "ok": ok, "head": head}
        if ok:
            ev.update(rows=v[0], plus=v[1], ev=v[3], mean=v[2] if pmf[41:].sum() < 1e-9 else [])
        out.append(ev)
    if script["gap"]:
        ok, v = call(d.kreach, np.array(script["gap"]), 0.5)
        out.append({"op": "gap", "ok": ok, "err": "" if ok else v})
        ok, v = call(d.kreach, np.array([], dtype=int), 0.5)
        out.append({"op": "none", "ok": ok, "n": len(v) if ok else -1})
    return out


def mixture(script):
    import numpy as np
    from wfa_planning_evaluation_framework.models.dirac_mixture_single_publisher_model import (
        UnivariateMixedPoissonOptimizer as Opt,
    )

    out = []
    raw = script["hist"]
    hist = np.array(raw, dtype=float if script["float"] else int)
    n = script["n"]
    ok, o = call(Opt, hist, n)
    if script["bad"]:
        return [{"op": "refuse", "ok": ok, "err": "" if ok else o}]
    total = sum(raw)
    F = len(raw)
    ev = {"op": "grid", "ok": ok, "n": n, "hist": raw, "total": total}
    if ok:
        ok, comp = call(lambda: [float(x) for x in o.components])
        ev["ok"] = ok
    if not ok:
        return [ev]
    counts = [len([c for c in comp if f <= c < f + 1]) for f in range(F + 1)]
    even = True
    for f in range(F + 1):
        cs = sorted(c for c in comp if f <= c < f + 1)
        even = even and all(abs(c - (f + i / float(len(cs)))) < 1e-9 for i, c in enumerate(cs))
    ev.update(counts=counts, inrange=bool(all(0 <= c < F + 1 for c in comp)), even=bool(even))
    out.append(ev)
    if script["explicit"]:
        ok, v = call(o.fit)
    else:
        ok, v = call(o.predict, 1.0)  # fits by itself
    ev = {"op": "fit", "ok": ok, "err": "" if ok else v, "seen": False}
    ws = getattr(o, "ws", None) if ok else None
    if ok:
        call(o.fit)
        ev["kept"] = bool(list(hist) == list(raw))
        if ws is not None:
            ev["seen"] = True
            ws = [float(w) for w in ws]
            ev["ws"] = scaleds(ws, 10**6)
            ev["ncomp"] = len(comp)
            obs = np.array(raw, dtype=float) / total
            fit = np.asarray(o.predict(1.0), dtype=float)
            ev["small"] = bool(len(fit) != F or min(f for f, x in zip(fit, obs) if x > 0) < 1e-3)
            ev["grad"] = []
            if not ev["small"]:
                vs = [np.asarray(Opt.truncated_poisson_pmf_vec(c, F - 1)) for c in comp]
                ev["grad"] = [scaled(sum(x * y / z for x, y, z in zip(obs, v, fit) if x > 0), V) for v in vs]
    out.append(ev)
    if not ok:
        return out
    hists = {}
    for s, cap in script["asks"]:
        ok, v = call(o.predict, s, cap) if cap is not None else call(o.predict, s)
        c = F - 1 if cap is None else cap
        ev = {"op": "predict", "ok": ok, "cap": c, "scale0": s == 0}
        if ok:
            v = [float(x) for x in v]
            ev["hist"] = scaleds(v, U)
            ev["same"] = [float(x) for x in (o.predict(s, cap) if cap is not None else o.predict(s))] == v
            hists[(s, c)] = v
        out.append(ev)
    by_scale, by_cap = {}, {}
    for (s, c), v in sorted(hists.items()):
        by_scale.setdefault(s, []).append(v)
        by_cap.setdefault(c, []).append(v)
        if ws is not None and len(comp) <= 30:
            ok, vs = call(lambda: [scaleds(Opt.truncated_poisson_pmf_vec(x * s, c), V) for x in comp])
            if ok:
                out.append({"op": "mix", "ws": scaleds(ws, V), "vs": vs, "hist": scaleds(v, V)})
    for vs in by_scale.values():
        for x, y in zip(vs, vs[1:]):
            out.append({"op": "caps", "low": scaleds(x, U), "high": scaleds(y, U)})
    for vs in by_cap.values():
        if len(vs) > 1:
            out.append({"op": "scales", "hists": [scaleds(v, U) for v in vs]})
    for m4, cap in script["poisson"]:
        ok, v = call(lambda: [float(x) for x in Opt.truncated_poisson_pmf_vec(m4 / 4.0, cap)])
        out.append({"op": "poisson", "ok": ok, "m4": m4, "cap": cap, "v": scaleds(v, 10**6) if ok else []})
    return out


def drive(script):
    return kinflated(script) if script["op"] == "kinflated" else mixture(script)


def run(ctx):
    ctx.rule = ("every finite leading distribution of the bounded specification at every inclusion probability, seeded inflated "
                "Gamma-Poisson parameters, and seeded histograms fitted by Poisson mixtures; non-trivial: more than two frequencies carry mass")
    ctx.model_check("FrequencyDistribution", constants={"N": ctx.pick(4, 5), "Mass": ctx.pick(3, 4)})
    gen = ctx.generate("FrequencyDistributionGen", constants={"N": ctx.pick(4, 5), "Mass": 4})
    rng = ctx.rng("c14")
    by = {}
    for g in gen:
        by.setdefault(tuple(g["a"]), []).append([g["num"], g["den"]])
    scripts = []
    for a, ps in sorted(by.items()):
        scripts.append({"op": "kinflated", "a": list(a), "mass": 4, "a4": rng.choice([1, 2, 4, 12]), "b4": rng.choice([1, 4, 16]),
                        "full": True, "h": len(a) + 2, "ks": len(a) + 1, "ps": rng.sample(ps, 2), "lo": 1, "hi": rng.randint(1, len(a)),
                        "law": 0, "gap": [], "array": rng.random() < 0.5})
    for _ in range(ctx.pick(300, 4000)):
        k = rng.choice([0, 1, 1, 2, 3, 4])
        mass = 16
        a = [rng.randint(0, rng.choice([1, 3, 8])) for _ in range(k)]
        if rng.random() < 0.2 and k:
            a[rng.randrange(k)] = 16
        while sum(a) > 20:
            a[a.index(max(a))] -= 1
        h = 30
        lo = rng.choice([0, 1, 2, 5])
        scripts.append({"op": "kinflated", "a": a, "mass": mass, "a4": rng.choice([1, 1, 2, 3, 4, 4, 8, 20, 40, 200]),
                        "b4": rng.choice([1, 1, 2, 4, 4, 10, 20, 100]), "full": False, "h": h,
                        "ks": rng.choice([3, 8, 12]), "ps": [[rng.randint(0, 8), 8]], "lo": lo, "hi": 0,
                        "law": rng.choice([0, 0, 3, 4]), "gap": rng.choice([[], [1, 3], [0, 2, 3], [3, 2, 1]]),
                        "array": rng.random() < 0.5})
        s = scripts[-1]
        s["lo"] = min(s["lo"], s["ks"])
        s["hi"] = rng.randint(s["lo"], s["ks"])
    for _ in range(ctx.pick(160, 2500)):
        F = rng.choice([2, 2, 3, 4, 6, 10, 15])
        style = rng.choice(["any", "heavy0", "decay", "sparse", "small"])
        if style == "any":
            hist = [rng.randint(0, 1000) for _ in range(F)]
        elif style == "heavy0":
            hist = [rng.choice([10**5, 10**6])] + [rng.randint(0, 100) for _ in range(F - 1)]
        elif style == "decay":
            q = rng.uniform(0.2, 0.9)
            hist = [int(1000 * q**i) for i in range(F)]
        elif style == "sparse":
            hist = [rng.choice([0, 0, 1, 7, 500]) for _ in range(F)]
        else:
            hist = [rng.choice([0, 1, 1, 2]) for _ in range(F)]
        bad = rng.random() < 0.15
        if bad:
            w = rng.choice(["short", "neg", "zero"])
            if w == "short":
                hist = hist[:1]
            elif w == "neg":
                hist[rng.choice([0, rng.randrange(F)])] = -rng.choice([1, 5])
            else:
                hist = [0] * F
        elif sum(hist) == 0:
            hist[-1] = 1
        scales = sorted(rng.sample([0, 0.25, 0.5, 1.0, 1, 1.5, 2, 4], 3))
        asks = [[s, c] for s in scales for c in sorted(set([rng.choice([F - 1, F + 3]), rng.choice([1, 2, F])]))]
        asks += [[s, None] for s in rng.sample(scales, 1)]
        if rng.random() < 0.5:
            asks += [[scales[-1], rng.choice([0, 25])]]
        if rng.random() < 0.2:
            asks += [[rng.choice([10, 40]), rng.choice([60, 150])]]
        rng.shuffle(asks)
        n = rng.choice([2, 2, 3, 5, 10, 20, 30, 60])
        while n * max(hist) * 4 >= 2**31 or 2 * sum(hist) * n >= 2**30:
            n = max(2, n // 2)
            if n == 2:
                break
        scripts.append({"op": "mixture", "hist": hist, "n": n, "bad": bad, "float": rng.random() < 0.3,
                        "explicit": rng.random() < 0.5, "asks": asks,
                        "poisson": [[rng.choice([0, 1, 2, 6, 13, 40, 80]), rng.choice([1, 2, 5, 12])] for _ in range(2)]
                        + [rng.choice([[200, 60], [240, 55], [320, 80], [400, 100], [420, 90], [1000, 240]])]})
    traces = ctx.pmap(drive, scripts, seconds=120)
    ctx.log("ran %d scripts" % len(scripts))
    ctx.validate("FrequencyDistributionTrace", traces,
                 nontrivial=lambda t: len([x for x in t[0].get("head", t[0].get("counts", [])) if x]) > 2)
    ctx.assumptions = ["probabilities compared in units of 1e-8 with the slack stated in the trace specification",
                       "solver results are accepted within 5e-5 of the simplex and 2% of first-order optimality"]
