"""Building Halo simulators from scripts, for C08 - C10."""
from vlib import BADINT, as_int
from common import USER_SCHEMES, price_table, spend_value


class Built:
    pass


def code_of(table, x):
    """rank code of a spend: 2*rank for a price, odd between two prices"""
    x = float(x)
    lo = 0
    for k, v in enumerate(table):
        if x == float(v):
            return 2 * (k + 1)
        if float(v) < x:
            lo = k + 1
    return 2 * lo + 1


class ScriptedGenerator:
    """A numpy Generator whose singled-out draws can be dictated; it counts nothing and
    delegates everything that is not dictated."""

    def __init__(self, rng, singles=None, normal=None):
        self._rng = rng
        self.singles = singles  # number of registers hit exactly once, or None
        self.shift = normal  # normal(loc, scale) -> loc + shift, or None
        self.last = {}

    def multinomial(self, n, pvals, *a, **k):
        import numpy as np

        if self.singles is None:
            out = self._rng.multinomial(n, pvals, *a, **k)
        else:
            out = np.zeros(max(len(pvals), self.singles + 1), dtype=int)
            out[: self.singles] = 1
            out[self.singles] = 2 if n > self.singles else 0
        self.last["singles"] = int((out == 1).sum())
        return out

    def normal(self, loc=0.0, scale=1.0, size=None):
        if self.shift is None:
            return self._rng.normal(loc, scale, size)
        self.last["loc"] = loc
        return float(loc + self.shift)

    def standard_normal(self, *a, **k):
        return self._rng.standard_normal(*a, **k) if self.shift is None else 0.0

    def __getattr__(self, name):
        return getattr(self._rng, name)


def build(script, generator=None, tracker=None):
    import numpy as np
    from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
    from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
    from wfa_planning_evaluation_framework.simulator.halo_simulator import HaloSimulator
    from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyTracker
    from wfa_planning_evaluation_framework.simulator.system_parameters import (
        LiquidLegionsParameters, SystemParameters,
    )

    b = Built()
    users = USER_SCHEMES[script.get("uscheme", "seq")]
    b.users = users
    b.uback = {users(u): u for u in range(0, script["nusers"] + 1)}
    b.tables = [price_table(s, script["nprices"]) for s in script["schemes"]]
    b.logs = [[(users(e["u"]), b.tables[i][e["p"] - 1]) for e in log] for i, log in enumerate(script["ds"])]
    b.enc = [[{"u": e["u"], "p": 2 * e["p"]} for e in log] for log in script["ds"]]
    kw = {} if script.get("universe") is None else {"universe_size": script["universe"]}
    b.data = DataSet([PublisherData(list(lg), "p%d" % i) for i, lg in enumerate(b.logs)], "ds", **kw)
    b.fractions = list(script["fractions"])
    ll = LiquidLegionsParameters(*script["ll"]) if script.get("ll") else LiquidLegionsParameters()
    b.ll = ll
    b.generator = generator if generator is not None else np.random.default_rng(script["seed"])
    b.params = SystemParameters(list(b.fractions), ll, b.generator)
    b.tracker = tracker if tracker is not None else PrivacyTracker()
    b.halo = HaloSimulator(b.data, b.params, b.tracker)
    b.want_universe = script["universe"] if script.get("universe") is not None else 2 * len(
        set(u for lg in b.logs for u, _ in lg))
    return b


def snapshot(data):
    return [(p.name, sorted(p.user_counts_by_impressions(p.max_impressions).items()), p.max_spend)
            for p in data._data] if hasattr(data, "_data") else []


def fraction_for(table, logtop, c):
    """A fraction of the publisher's largest price that lands at rank code c (0 -> nothing)."""
    if c == 0:
        return 0.0
    x = spend_value(table, c)
    if x is None or x < 0:
        return None
    return min(1.0, float(x) / float(logtop)) if logtop else 1.0
