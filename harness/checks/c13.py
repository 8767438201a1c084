"""C13: multi-publisher reach surfaces against ReachSurface.tla."""
import copy

from vlib import call, limited, Timeout, scaled, BADINT


def linear_curve(top, cost):
    """A curve that reaches one more person per impression until everybody is reached."""
    from wfa_planning_evaluation_framework.models.reach_point import ReachPoint
    from wfa_planning_evaluation_framework.models.reach_curve import ReachCurve

    class Linear(ReachCurve):
        def __init__(self):
            super().__init__([ReachPoint([top], [top], [cost * top])], top)

        def by_impressions(self, impressions, max_frequency=1):
            if len(impressions) != 1:
                raise ValueError("length")
            return ReachPoint(impressions, [min(impressions[0], top)] + [0] * (max_frequency - 1))

        def impressions_for_spend(self, spend):
            return spend / cost

        def by_spend(self, spends, max_frequency=1):
            return self.by_impressions([spends[0] / cost], max_frequency)

    return Linear()


def curves_of(script):
    from wfa_planning_evaluation_framework.models.reach_point import ReachPoint
    from wfa_planning_evaluation_framework.models.goerg_model import GoergModel

    out = []
    for c in script["curves"]:
        if c["kind"] == "linear":
            out.append(linear_curve(c["top"], c["cost"]))
        else:
            out.append(GoergModel([ReachPoint([c["I"]], [c["R"]], [c["cost"] * c["I"]])]))
    return out


def true_union(kind, a, r, m):
    p = len(r)
    if kind == "mixture":
        n = 2.0 * max(m)
        tot = 0.0
        for j in range(len(a[0])):
            w = 1.0
            for i in range(p):
                w *= 1 - a[i][j] * r[i] / n
            tot += 1 - w
        return n * tot
    return sum(r) - sum(a[i][j] * r[i] * r[j] / max(m[i], m[j]) for i in range(p) for j in range(i + 1, p))


def drive(script):
    import numpy as np
    from wfa_planning_evaluation_framework.models.reach_point import ReachPoint
    from wfa_planning_evaluation_framework.models.pairwise_union_reach_surface import PairwiseUnionReachSurface
    from wfa_planning_evaluation_framework.models.restricted_pairwise_union_reach_surface import (
        RestrictedPairwiseUnionReachSurface,
    )
    from wfa_planning_evaluation_framework.models.generalized_mixture_reach_surface import GeneralizedMixtureReachSurface

    np.random.seed(script["seed"])
    curves = curves_of(script)
    p = len(curves)
    m = [c.max_reach for c in curves]
    unit = float(sum(m)) / 10**6
    kind = script["kind"]
    own = lambda x: [float(c.by_impressions([i]).reach()) for c, i in zip(curves, x)]
    # training points
    points, ys = [], []
    for x, f in zip(script["train"], script["factors"]):
        r = own(x)
        if script["hub"]:
            act = [i for i in range(p) if x[i]]
            h = [i for i in script["hub"] if i in act]
            y = sum(r) - (min(r[i] for i in h) * script["share"] if len(h) == 2 and (len(act) == 2 or script["only"] == len(act)) else 0)
            y = max(y, max(r))
        elif script["a"]:
            y = true_union(script["true"], script["a"], r, m)
            if kind == "restricted":  # nearly exact: an exact fit makes its search go on to the last start
                y += (f - 0.5) * 0.004 * sum(r)
        else:
            y = max(r) + (sum(r) - max(r)) * f
        ys.append(y)
        points.append(ReachPoint(list(x), [y] + ([0.0] if script["twofreq"] else [])))
    before = (copy.deepcopy([vars(q) for q in points]), [own([k] * p) for k in (1, 7, 50)], m)
    out = []

    def scribble(q):
        for n, v in list(vars(q).items()):
            if isinstance(v, list):
                v[:] = [w * 2 + 1 if isinstance(w, (int, float)) else w for w in v]

    def build():
        # in some scripts the caller reuses its points between building the surface and fitting it
        pts = copy.deepcopy(points) if script["scribble"] else points
        if kind == "mixture":
            s = GeneralizedMixtureReachSurface(curves, pts, script["clusters"])
        elif kind == "restricted":
            s = RestrictedPairwiseUnionReachSurface(curves, pts)
        else:
            s = PairwiseUnionReachSurface(curves, pts)
        if script["scribble"]:
            for q in pts:
                scribble(q)
        if kind == "restricted" and script["sampler"]:
            s._fit(script["sampler"])
        else:
            s._fit()
        return s

    try:
        ok, s = limited(lambda: call(build), script["patience"])
    except Timeout:
        return None
    kept = before == (copy.deepcopy([vars(q) for q in points]), [own([k] * p) for k in (1, 7, 50)], [c.max_reach for c in curves])
    ev = {"op": "fit", "kind": kind, "ok": ok, "err": "" if ok else s, "kept": bool(kept), "seen": False, "tol": 500, "p": p}
    if ok:
        par = getattr(s, "a" if kind == "mixture" else "_a", None)
        w = script["clusters"] if kind == "mixture" else p
        if par is not None and np.size(par) == p * w:
            par = np.asarray(par, dtype=float).reshape(p, w)
            ev["seen"] = True
            ev["a"] = [[scaled(v, 10**6) for v in row] for row in par]
    out.append(ev)
    if not ok:
        return out
    tol = script["tol"]
    u_of = lambda x: scaled(s.by_impressions(list(x)).reach(), 1.0 / unit)
    for chain in script["chains"]:
        def go():
            us = [u_of(x) for x in chain]
            q = s.by_impressions(list(chain[-1]))
            return us, list(q.impressions) == list(chain[-1]), us == [u_of(x) for x in chain]
        ok, v = call(go)
        e = {"op": "predict", "kind": kind, "ok": ok, "tol": tol}
        if ok:
            e.update(u=v[0], carried=v[1], same=v[2], r=[[scaled(t, 1.0 / unit) for t in own(x)] for x in chain])
        out.append(e)
    for i in list(range(p)) + [q + p for q in range(p)]:
        # also for less than one impression, which a small spend buys
        x = [0] * p
        x[i % p] = (script["chains"][0][-1][i] or 3) if i < p else script["sliver"]
        i %= p
        ok, v = call(u_of, x)
        out.append({"op": "alone", "kind": kind, "ok": ok, "u": v if ok else 0, "own": scaled(own(x)[i], 1.0 / unit), "tol": tol})
    for x in script["spends"]:
        sp = [xi * c["cost"] for xi, c in zip(x, script["curves"])]
        ok, v = call(lambda: scaled(s.by_spend(sp).reach(), 1.0 / unit))
        ok2, w = call(lambda: scaled(s.by_impressions([c.impressions_for_spend(t) for c, t in zip(curves, sp)]).reach(), 1.0 / unit))
        out.append({"op": "spend", "kind": kind, "ok": ok and ok2, "u": v if ok else 0, "byimps": w if ok2 else 0})
    if script["a"] and script["true"] == "pairwise" and kind in ("pairwise", "restricted") and script["explained"]:
        ok, v = call(lambda: [u_of(x) for x in script["train"]])
        out.append({"op": "explained", "kind": kind, "ok": ok, "u": v if ok else [], "y": [scaled(y, 1.0 / unit) for y in ys],
                    "tol": 2000 if kind == "pairwise" else 20000})
    # the caller goes on to use the lists and objects for something else
    asked = [x for ch in script["chains"] for x in ch[-2:]]
    ok, u0 = call(lambda: [u_of(x) for x in asked])
    for q in points:
        scribble(q)
    kept_curves, kept_points = list(curves), list(points)
    curves[:] = [linear_curve(3 * int(v) + 5, 0.3) for v in m]
    del points[1:]
    ok2, u1 = call(lambda: [u_of(x) for x in asked])
    out.append({"op": "later", "kind": kind, "ok": ok and ok2, "u": u0 if ok else [], "v": u1 if ok2 else []})
    curves[:], points[:] = kept_curves, kept_points
    # points of different widths, and none
    if script["refuse"]:
        cls = {"mixture": lambda c, q: GeneralizedMixtureReachSurface(c, q, 2), "restricted": RestrictedPairwiseUnionReachSurface,
               "pairwise": PairwiseUnionReachSurface}[kind]
        ok, v = call(cls, curves, points + [ReachPoint([1] * (p + 1), [1])])
        out.append({"op": "refuse", "kind": kind, "what": "mixed widths", "ok": ok, "err": "" if ok else v})
    return out


def run(ctx):
    ctx.rule = ("every audience-size vector and admissible parameter matrix of the bounded specification as the truth behind the "
                "training points, and seeded curves, truths and arbitrary training reaches; non-trivial: a fit with a "
                "positive overlap parameter or a mixture fit")
    ctx.model_check("ReachSurface", constants={"Clusters": ctx.pick(2, 3)})
    gen = ctx.generate("ReachSurfaceGen")
    rng = ctx.rng("c13")
    rng.shuffle(gen)

    def curve(top):
        if rng.random() < 0.5:
            return {"kind": "linear", "top": top, "cost": rng.choice([0.01, 1.0, 2.5])}
        return {"kind": "goerg", "I": top * rng.choice([2, 3, 7]), "R": top, "cost": rng.choice([0.01, 1.0, 2.5])}

    def script(kind, tops, a, true, explained=False, hub=None, low=False):
        p = len(tops)
        cs = [curve(t) for t in tops]
        levels = [1.0, 0.5] if p <= 3 and not hub else [1.0]
        train = []
        whole = [c["top"] if c["kind"] == "linear" else c["I"] for c in cs]
        vec = lambda act, lv: [max(1, int(t * lv * (1 if hub else rng.choice([1, 1, 0.7])))) if i in act else 0 for i, t in enumerate(whole)]
        for lv in levels:
            train.append(vec(range(p), lv))
            for i in range(p):
                for j in range(i + 1, p):
                    train.append(vec((i, j), lv))
        if p > 3 or (p > 2 and not hub):
            for i in range(p):
                train.append(vec([k for k in range(p) if k != i], 1.0))
        if kind != "mixture" and not hub and rng.random() < 0.5:
            train += [vec([i], 1.0) for i in range(p)]
        if kind == "mixture":
            train = [x for x in train if all(x)] + [vec(range(p), rng.uniform(0.1, 1)) for _ in range(4)]
            if low:
                train = [vec(range(p), rng.uniform(0.02, 0.15)) for _ in range(5)]
        elif not explained and not hub:
            train = [train[0]] + rng.sample(train, max(1, len(train) // rng.choice([1, 2])))
        chains = []
        for _ in range(3):
            x = [rng.choice([0, 0, int(t * rng.random())]) for t in whole]
            ch = [list(x)]
            for _ in range(6):
                i = rng.randrange(p)
                x[i] += max(1, int(whole[i] * rng.choice([0.05, 0.3, 1])))
                ch.append(list(x))
            chains.append(ch)
        return dict(kind=kind, curves=cs, train=train, factors=[rng.random() if true else 1 for _ in train], a=a, true=true,
                    clusters=rng.choice([1, 2, 3, 3, 4, 5]), seed=rng.randrange(10**6), twofreq=rng.random() < 0.3, tol=300,
                    patience=ctx.pick(60 if hub else 25, 120), chains=chains, spends=[[int(t * rng.random()) for t in whole] for _ in range(2)],
                    sampler=rng.choice([None, None, "truncated_uniform", "scaled_from_simplex"]), explained=explained,
                    refuse=rng.random() < 0.2, scribble=rng.random() < 0.4, sliver=rng.choice([0.3, 0.5, 0.9, 0.999]), hub=hub, share=rng.choice([0.3, 0.6]), only=rng.choice([0, p]))

    scripts = []
    for g in gen[: ctx.pick(40, 400)]:
        size = rng.choice([40, 1000, 30000])
        tops = [size * x for x in g["m"]]
        a = [[x / 2.0 for x in row] for row in g["a"]]
        if g["kind"] == "pairwise":
            scripts.append(script("pairwise", tops, a, "pairwise", True))
        else:
            scripts.append(script("mixture", tops, a, "mixture"))
    for _ in range(ctx.pick(40, 500)):
        p = rng.choice([2, 2, 3, 4, 5, 5, 6])
        tops = [int(10 ** rng.uniform(1.3, 5)) for _ in range(p)]
        if rng.random() < 0.4:  # of a size: the union can be far above the largest
            tops = [int(max(tops) * rng.uniform(0.8, 1)) for _ in range(p)]
        if rng.random() < 0.5:
            # any pairwise truth: scale a random symmetric matrix into the constraint set
            a = [[0.0] * p for _ in range(p)]
            for i in range(p):
                for j in range(i + 1, p):
                    a[i][j] = a[j][i] = rng.choice([0, rng.random()])
            s = max(sum(row) for row in a) or 1.0
            a = [[x / s * rng.choice([1.0, 0.6, 0.2]) for x in row] for row in a]
            for i in range(p):
                for j in range(i):
                    a[i][j] = a[j][i]
            if max(sum(row) for row in a) <= 1:
                scripts.append(script("pairwise", tops, a, "pairwise", True))
                continue
        scripts.append(script("pairwise", tops, None, True))
    for _ in range(ctx.pick(24, 250)):
        p = rng.choice([2, 3, 3, 4])
        tops = [int(10 ** rng.uniform(2, 4)) for _ in range(p)]
        scripts.append(script("restricted", tops, None, rng.choice([True, True, False])))
    for _ in range(ctx.pick(10, 100)):
        # the restricted model's own truth: products of one number per publisher
        p = rng.choice([2, 3, 3, 4])
        tops = [int(10 ** rng.uniform(2.5, 4)) for _ in range(p)]
        lam = [rng.uniform(0.1, 1) for _ in range(p)]
        s = max(v * (sum(lam) - v) for v in lam) ** 0.5
        lam = [v / s * rng.choice([1.0, 0.8]) for v in lam]
        s = max(1.0, max(v * (sum(lam) - v) for v in lam) ** 0.5)
        a = [[0.0 if i == j else lam[i] * lam[j] / s / s / 2 for j in range(p)] for i in range(p)]
        scripts.append(script("restricted", tops, a, "pairwise", True))
    for _ in range(ctx.pick(10, 100)):
        # two publishers overlap, the others with nobody, and large purchases with nobody at all
        p = rng.choice([3, 3, 4])
        tops = [int(10 ** rng.uniform(2.5, 3.5)) for _ in range(p)]
        scripts.append(script(rng.choice(["restricted", "restricted", "pairwise"]), tops, None, True, hub=rng.sample(range(p), 2)))
    for _ in range(ctx.pick(20, 200)):
        p = rng.choice([2, 3])
        tops = [int(10 ** rng.uniform(2, 4)) for _ in range(p)]
        scripts.append(script("mixture", tops, None, True, low=rng.random() < 0.4))
    traces = ctx.pmap(drive, scripts, seconds=250)
    slow = sum(1 for t in traces if not t)

    def nt(t):
        e = t[0]
        return e["ok"] and (e["kind"] == "mixture" or (e["seen"] and any(v > 1000 for row in e["a"] for v in row)))

    ctx.validate("ReachSurfaceTrace", traces, nontrivial=nt)
    ctx.extra["fits_too_slow_for_this_tier"] = slow
    ctx.log("%d fits were too slow for this tier" % slow)
    ctx.assumptions = ["curves with positive maximum reach; solver tolerance of 5e-4 on parameters and 3e-4 of the summed maximum "
                       "reach on predictions"]
