"""C01: PublisherData against PublisherLog.tla."""
import io
from copy import deepcopy

from vlib import call, as_int
from common import PRICE_SCHEMES, USER_SCHEMES, price_table, spend_value


def drive(script):
    from wfa_planning_evaluation_framework.data_generators.publisher_data import (
        PublisherData,
    )

    table = price_table(script["scheme"], script["nprices"])
    users = USER_SCHEMES[script["uscheme"]]
    uback = {users(u): u for u in range(0, script["nusers"] + 1)}
    pback = {float(v): 2 * (i + 1) for i, v in enumerate(table)}

    def code(v):
        try:
            return pback.get(float(v), -999999999)
        except Exception:
            return -999999999

    def enc_list(lst):
        return [{"u": uback.get(u, -1), "p": code(p)} for u, p in lst]

    log = script["log"]
    lst = [(users(e["u"]), table[e["p"] - 1]) for e in log]
    before = enc_list(lst)
    name = script.get("name")
    via = script.get("via", "list")
    if via == "list":
        ok, pub = call(PublisherData, lst, name)
    elif via == "file":
        text = "".join("%d,%r\n" % (u, p) for u, p in lst)
        ok, pub = call(PublisherData.read_publisher_data, io.StringIO(text))
    else:
        snapshot = [u for u, _ in lst]
        ok, pub = call(
            PublisherData.generate_publisher_data,
            lambda: snapshot,
            lambda ids: lst,
            name,
        )
    if not ok:
        return [{"op": "build", "ok": False, "err": pub, "before": before}]
    if via == "file" or not name:
        nok = isinstance(pub.name, str) and len(pub.name) > 0
    else:
        nok = pub.name == name
    tr = [
        {
            "op": "build", "ok": True, "before": before, "after": enc_list(lst),
            "max_impressions": as_int(pub.max_impressions),
            "max_spend": code(pub.max_spend),
            "max_reach": as_int(pub.max_reach),
            "name_ok": nok,
        }
    ]
    shadow = list(lst)

    def enc_counts(d):
        return [[uback.get(u, -1), as_int(c)] for u, c in sorted(d.items(), key=lambda x: str(x))]

    for q in script["queries"]:
        op = q[0]
        ev = {"op": op, "ok": True}
        if op == "mutate":
            kind = q[1]
            if kind == 0:
                lst.clear()
            elif kind == 1:
                lst.reverse()
            elif kind == 2:
                lst.append((users(1), table[0]))
            else:
                lst.sort(key=lambda x: (-x[1], -x[0]))
            shadow = list(lst)
            tr.append(ev)
            continue
        if op == "totals":
            ev.update(
                max_impressions=as_int(pub.max_impressions),
                max_spend=code(pub.max_spend),
                max_reach=as_int(pub.max_reach),
                callerok=(lst == shadow),
            )
            tr.append(ev)
            continue
        if op in ("counts_by_spend", "imps_by_spend"):
            x = spend_value(table, q[1])
            if x is None:
                continue
            ev["arg"] = q[1]
            fn = pub.user_counts_by_spend if op == "counts_by_spend" else pub.impressions_by_spend
            ok, v = call(fn, x)
        else:
            ev["arg"] = q[1]
            fn = pub.user_counts_by_impressions if op == "counts_by_imps" else pub.spend_by_impressions
            ok, v = call(fn, q[1])
        ev["ok"] = ok
        if not ok:
            ev["err"] = v
        elif op.startswith("counts"):
            ok2, c = call(enc_counts, v)
            ev["val"] = c if ok2 else [[-1, -1]]
            if ok2 and q[-1] == "poke" and isinstance(v, dict):
                v.clear()  # the answer belongs to the caller
        elif op == "imps_by_spend":
            ev["val"] = as_int(v)
        else:
            ev["val"] = code(v)
            ev["zero"] = bool(v == 0)
        tr.append(ev)
    return tr


def queries(n, nprices, rng, dense):
    qs = []
    ns = list(range(0, n + 2)) + [n + 7]
    cs = list(range(1, 2 * nprices + 2))
    if not dense:
        ns = sorted(rng.sample(ns, min(len(ns), 12)))
        cs = sorted(rng.sample(cs, min(len(cs), 12)))
    for k in ns:
        qs.append(["counts_by_imps", k, "poke" if rng.random() < 0.3 else ""])
        qs.append(["spend_by_imps", k])
    for c in cs:
        qs.append(["counts_by_spend", c, "poke" if rng.random() < 0.3 else ""])
        qs.append(["imps_by_spend", c])
    rng.shuffle(qs)
    qs.insert(rng.randrange(len(qs) + 1), ["mutate", rng.randrange(4)])
    qs += [list(q) for q in rng.sample(qs, min(len(qs), 4))]
    qs.append(["totals"])
    return qs


def run(ctx):
    ctx.rule = (
        "scripts: every caller list of the bounded specification (TLC) with every query, and seeded "
        "larger lists; a trace is non-trivial if its log is out of price order, has equal prices or repeated users"
    )
    ctx.model_check("PublisherLog", constants={"MaxLen": ctx.pick(3, 4), "MaxOps": 2})
    gen = ctx.generate("PublisherLogGen", constants={"MaxLen": ctx.pick(3, 4)})
    rng = ctx.rng("c01")
    scripts = []
    schemes = PRICE_SCHEMES
    us = list(USER_SCHEMES)
    for i, log in enumerate(gen):
        scripts.append(
            {
                "log": log, "nprices": 3, "nusers": 3,
                "scheme": schemes[i % len(schemes)], "uscheme": us[(i // 3) % len(us)],
                "name": None if i % 5 == 0 else "pub %d" % i,
                "via": ["list", "list", "generate", "file"][i % 4],
                "queries": queries(len(log), 3, rng, True),
            }
        )
    nexh = len(scripts)
    for i in range(ctx.pick(250, 3000)):
        np_ = rng.choice([1, 2, 3, 5, 8, 20, 60])
        nu = rng.choice([1, 2, 3, 8, 25])
        n = rng.choice([1, 2, 5, 6, 8, 12, 20, 40, 40, 100])
        log = [{"u": rng.randint(1, nu), "p": rng.randint(1, np_)} for _ in range(n)]
        if rng.random() < 0.2:
            log.sort(key=lambda e: e["p"])
        elif rng.random() < 0.2:
            log.sort(key=lambda e: -e["p"])
        scripts.append(
            {
                "log": log, "nprices": np_, "nusers": nu,
                "scheme": rng.choice(schemes), "uscheme": rng.choice(us),
                "name": rng.choice([None, "x", "a,b"]),
                "via": rng.choice(["list", "list", "generate", "file"]),
                "queries": queries(n, np_, rng, n <= 8),
            }
        )
    for i in range(ctx.pick(8, 60)):  # long logs: heavy users, many users, many prices
        n = rng.choice([257, 300, 600])
        nu = rng.choice([1, 2, 40, 300])
        np_ = rng.choice([1, 4, 60])
        log = [{"u": rng.randint(1, nu), "p": rng.randint(1, np_)} for _ in range(n)]
        qs = []
        for k in sorted({0, 1, 127, 128, 129, 255, 256, 257, n - 1, n, n + 1, rng.randrange(n)}):
            qs += [["counts_by_imps", k], ["spend_by_imps", k]]
        for c in rng.sample(range(1, 2 * np_ + 2), min(5, 2 * np_ + 1)):
            qs += [["counts_by_spend", c, "poke"], ["imps_by_spend", c]]
        rng.shuffle(qs)
        qs.append(["totals"])
        scripts.append({"log": log, "nprices": np_, "nusers": nu, "scheme": rng.choice(schemes), "uscheme": rng.choice(us),
                        "name": "long", "via": rng.choice(["list", "generate", "file"]), "queries": qs})
    traces = ctx.pmap(drive, scripts, seconds=100)

    def nontrivial(t):
        b = t[0]["before"]
        ps = [e["p"] for e in b]
        return ps != sorted(set(ps)) or len(set(e["u"] for e in b)) < len(b)

    ctx.validate("PublisherLogTrace", traces, nontrivial=nontrivial)
    ctx.extra["exhaustive_scripts"] = nexh
    ctx.assumptions = ["impression counts are non-negative integers; ids are integers; prices are finite numbers"]
