"""C06: ReachPoint and its conversions against ReachHistogram.tla."""
import copy

from vlib import call, exact, as_int, BADINT


def res(fn, scale, seq=True):
    ok, v = call(fn)
    if not ok:
        return {"ok": False, "err": v, "val": [] if seq else 0}
    if seq:
        ok, w = call(lambda: [exact(x, scale) for x in v])
        return {"ok": True, "err": "", "val": w if ok else [BADINT]}
    return {"ok": True, "err": "", "val": exact(v, scale)}


def same(a, b):
    return type(a) is type(b) and list(a) == list(b)


def drive(script):
    from wfa_planning_evaluation_framework.models.reach_point import ReachPoint
    import numpy as np

    out = []
    if script["kind"] == "counts":
        tab = {script["base"] + 13 * i: c for i, c in enumerate(script["table"])}
        keep = dict(tab)
        for cap in script["caps"]:
            out.append({
                "op": "counts", "table": script["table"], "cap": cap,
                "freqs": res(lambda: ReachPoint.user_counts_to_frequencies(tab, cap), 1),
                "kplus": res(lambda: ReachPoint.user_counts_to_kplus_reaches(tab, cap), 1),
                "via": res(lambda: ReachPoint.frequencies_to_kplus_reaches(
                    ReachPoint.user_counts_to_frequencies(tab, cap)), 1),
                "unchanged": tab == keep,
            })
        return out
    s = script["scale"]
    conv = (lambda v: v) if s == 1 else (lambda v: v / float(s))
    if script["kind"] == "suffix":
        f = [conv(v) for v in script["freqs"]]
        if script["np"]:
            f = np.array(f)
        keep = copy.deepcopy(f)
        r = res(lambda: ReachPoint.frequencies_to_kplus_reaches(f), s)
        return [{"op": "suffix", "freqs": script["freqs"], "kplus": r, "unchanged": same(f, keep)}]
    imps = list(script["imps"])
    r = [conv(v) for v in script["r"]]
    if script["np"] == 1:
        r = np.array(r)
    elif script["np"] == 2:
        r = tuple(r)
    spends = None if script["spends"] is None else [conv(v) for v in script["spends"]]
    keep = copy.deepcopy((imps, r, spends))
    U = script["universe"]
    kw = {}
    if U >= 0:
        kw["universe_size"] = conv(U)
    args = [imps, r] + ([spends] if spends is not None or "universe_pos" in script else [])
    ok, pt = call(ReachPoint, *args, **kw)
    F = len(script["r"])
    ev = {
        "op": "point", "imps": script["imps"], "r": script["r"],
        "nspends": 0 if not script["spends"] else len(script["spends"]),
        "spends": script["spends"] or [], "universe": U,
        "made": {"ok": ok, "err": "" if ok else pt},
    }
    if ok:
        ks = [-1, 0] + list(range(1, F + 3))
        import random

        order = random.Random(script["order"])

        def observe(ev):
            """All accessors, in an order of this script's choosing."""
            def spends_():
                sp = pt.spends
                ev["got_spends"] = [-1] if sp is None else [exact(x, s) for x in sp]

            def reach_():
                ev["reach"] = [res(lambda: pt.reach(k), s, False) for k in ks] + [res(lambda: pt.reach(), s, False)]

            todo = [
                lambda: ev.update(got_imps=[as_int(x) for x in pt.impressions]),
                spends_,
                lambda: ev.update(max_frequency=as_int(pt.max_frequency)),
                reach_,
                lambda: ev.update(freq=[res(lambda: pt.frequency(k), s, False) for k in ks]),
                lambda: ev.update(frequencies=res(lambda: pt.frequencies, s)["val"]),
                lambda: ev.update(hist=res(lambda: pt.frequencies_with_kplus_bucket, s)["val"]),
                lambda: ev.update(got_universe=res(lambda: pt.universe_size, s, False)),
                lambda: ev.update(zero=res(lambda: pt.zero_included_histogram, s)),
            ]
            order.shuffle(todo)
            for f in todo:
                f()
            ev["reach_k"] = ks + [1]
            ev["freq_k"] = ks

        observe(ev)
        again = dict(ev)
        observe(again)
        # the caller reuses what it passed in; the point must not notice
        if isinstance(r, list):
            r2 = list(r)
            r[0] = r[0] + 1
            imps.append(5)
            same_after = res(lambda: pt.reach(1), s, False) == ev["reach"][2] and len(pt.impressions) == len(script["imps"])
            r[0] = r2[0]
            imps.pop()
        else:
            same_after = True
        ev["unchanged"] = (
            same_after and keep[0] == imps and same(keep[1], r) and keep[2] == spends
        )
        again["unchanged"] = ev["unchanged"]
        return [ev, again]
    return [ev]


def run(ctx):
    ctx.rule = (
        "every count table of the bounded specification at every cap, plus seeded tables, frequency lists and points "
        "(integer and quarter values, lists/tuples/arrays, with and without spends and universe); non-trivial: "
        "not all values equal"
    )
    ctx.model_check("ReachHistogram")
    gen = ctx.generate("ReachHistogramGen", constants={"MaxCount": ctx.pick(3, 4)})
    rng = ctx.rng("c06")
    scripts = []
    for t in gen:
        t = [c for c in t if c > 0]
        scripts.append({"kind": "counts", "table": t, "caps": [1, 2, 3, 4, 5], "base": rng.choice([0, -20, 10**10])})
        # the table's own representations, as points
        for cap in (1, 2, 4):
            r = [sum(1 for c in t if c >= k) for k in range(1, cap + 1)]
            scripts.append({"kind": "point", "imps": [sum(t)], "r": r, "spends": None, "universe": 4, "scale": 1, "np": 0})
            scripts.append({"kind": "suffix", "freqs": [sum(1 for c in t if c == k) for k in range(1, cap + 1)], "np": cap == 2, "scale": 1})
    for i in range(ctx.pick(600, 20000)):
        n = rng.choice([0, 1, 3, 10, 60])
        m = rng.choice([1, 2, 5, 20, 50])
        scripts.append({"kind": "counts", "table": [rng.randint(1, m) for _ in range(n)],
                        "caps": sorted(rng.sample(range(1, 25), 4)), "base": rng.choice([0, 5])})
        F = rng.choice([1, 1, 2, 3, 6, 10, 20])
        big = rng.choice([3, 50, 10**8])
        r = [rng.randint(0, big) for _ in range(F)]
        if rng.random() < 0.7:
            r.sort(reverse=True)
        p = rng.choice([1, 1, 2, 5])
        sp = None
        x = rng.random()
        if x < 0.5:
            sp = [rng.randint(0, 99) for _ in range(p)]
        elif x < 0.6:
            sp = [rng.randint(0, 99) for _ in range(rng.choice([q for q in (0, p - 1, p + 1, p + 2)]))]
        scripts.append({"kind": "point", "imps": [rng.randint(0, 1000) for _ in range(p)], "r": r, "spends": sp,
                        "universe": rng.choice([-1, -1, 0, 7, max(r), 2 * 10**8]), "scale": rng.choice([1, 4]),
                        "np": rng.choice([0, 0, 1, 2])})
        scripts.append({"kind": "suffix", "freqs": [rng.randint(0, big) // F for _ in range(F)], "np": rng.random() < 0.4,
                        "scale": rng.choice([1, 4])})
    for i, s in enumerate(scripts):
        s["order"] = rng.randrange(10**6)
    traces = ctx.pmap(drive, scripts, seconds=100)

    def nt(t):
        e = t[0]
        v = e.get("table") or e.get("freqs") or e.get("r") or []
        return isinstance(v, dict) or len(set(map(str, v))) > 1

    ctx.validate("ReachHistogramTrace", traces, nontrivial=nt)
