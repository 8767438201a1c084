"""Stand-in set generators (independent, disjoint, sequentially correlated)."""

import numpy as np

from wfa_cardinality_estimation_evaluation_framework import verif_probe
from wfa_cardinality_estimation_evaluation_framework.simulations.set_generator_base import (
    SetGeneratorBase,
)

ORDER_ORIGINAL = "original"
ORDER_REVERSED = "reversed"
ORDER_RANDOM = "random"
CORRELATED_SETS_ALL = "all"
CORRELATED_SETS_ONE = "one"

GENERATED = []  # the id sets handed out, for the checks
CREATED = []  # (kind, settings) of every generator created, for the checks


class _Base(SetGeneratorBase):
    def _sets(self):
        raise NotImplementedError()

    def __iter__(self):
        for s in self._sets():
            GENERATED.append([int(x) for x in s])
            yield s


class DisjointSetGenerator(_Base):
    def __init__(self, set_sizes, **kwargs):
        self.set_sizes = list(set_sizes)

    def _sets(self):
        start = 0
        for n in self.set_sizes:
            yield np.arange(start, start + n)
            start += n


class IndependentSetGenerator(_Base):
    def __init__(self, universe_size, set_sizes, random_state):
        CREATED.append(
            ("independent", dict(universe_size=universe_size, set_sizes=list(set_sizes)))
        )
        self.universe_size = universe_size
        self.set_sizes = list(set_sizes)
        self.random_state = random_state

    def _sets(self):
        for n in self.set_sizes:
            yield self.random_state.choice(
                int(self.universe_size), size=n, replace=False
            )


class SequentiallyCorrelatedSetGenerator(_Base):
    def __init__(
        self, order, correlated_sets, shared_prop, set_sizes, random_state, **kwargs
    ):
        if order not in (ORDER_ORIGINAL, ORDER_REVERSED, ORDER_RANDOM):
            raise ValueError("invalid order {}".format(order))
        if correlated_sets not in (CORRELATED_SETS_ALL, CORRELATED_SETS_ONE):
            raise ValueError("invalid correlated_sets {}".format(correlated_sets))
        CREATED.append(
            (
                "sequential",
                dict(
                    order=order,
                    correlated_sets=correlated_sets,
                    shared_prop=shared_prop,
                    set_sizes=list(set_sizes),
                ),
            )
        )
        self.order = order
        self.correlated_sets = correlated_sets
        self.shared_prop = shared_prop
        self.set_sizes = list(set_sizes)
        self.random_state = random_state

    def _sets(self):
        n = len(self.set_sizes)
        idx = list(range(n))
        if self.order == ORDER_REVERSED:
            idx.reverse()
        elif self.order == ORDER_RANDOM:
            self.random_state.shuffle(idx)
        result = {}
        seen, previous, fresh = [], [], 0
        for i in idx:
            size = self.set_sizes[i]
            pool = seen if self.correlated_sets == CORRELATED_SETS_ALL else previous
            k = min(len(pool), int(round(size * self.shared_prop)))
            shared = (
                list(self.random_state.choice(pool, size=k, replace=False)) if k else []
            )
            new = list(range(fresh, fresh + size - k))
            fresh += size - k
            ids = np.array(shared + new, dtype=int)
            self.random_state.shuffle(ids)
            result[i] = ids
            previous = list(ids)
            seen = sorted(set(seen) | set(previous))
        for i in range(n):
            yield result[i]
