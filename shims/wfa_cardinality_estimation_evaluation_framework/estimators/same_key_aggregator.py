"""Stand-in sketches and estimator: exact multisets of ids."""

from collections import Counter

from wfa_cardinality_estimation_evaluation_framework import verif_probe


class ExponentialSameKeyAggregator:
    def __init__(self, length, decay_rate, random_seed):
        self.length = length
        self.decay_rate = decay_rate
        self.random_seed = random_seed
        self.counts = Counter()
        verif_probe.SKETCHES.append(
            dict(length=length, decay_rate=decay_rate, seed=random_seed)
        )

    def add(self, x):
        self.counts[x] += 1

    def add_ids(self, ids):
        for x in ids:
            self.add(x)


class StandardizedHistogramEstimator:
    def __init__(
        self,
        max_freq=10,
        reach_noiser_class=None,
        frequency_noiser_class=None,
        reach_epsilon=1.0,
        frequency_epsilon=1.0,
        reach_delta=0.0,
        frequency_delta=0.0,
        reach_noiser_kwargs={},
        frequency_noiser_kwargs={},
    ):
        self.max_freq = max_freq
        self.reach_noiser_class = reach_noiser_class
        self.frequency_noiser_class = frequency_noiser_class
        self.reach_epsilon = reach_epsilon
        self.frequency_epsilon = frequency_epsilon
        self.reach_delta = reach_delta
        self.frequency_delta = frequency_delta
        self.reach_noiser = self.frequency_noiser = lambda x: x
        if reach_noiser_class is not None:
            self.reach_noiser = reach_noiser_class(
                epsilon=reach_epsilon, delta=reach_delta, **reach_noiser_kwargs
            )
        if frequency_noiser_class is not None:
            self.frequency_noiser = frequency_noiser_class(
                epsilon=frequency_epsilon,
                delta=frequency_delta,
                **frequency_noiser_kwargs
            )
        for noiser, role in ((self.reach_noiser, "main"), (self.frequency_noiser, "rest")):
            try:
                noiser.role = role
            except AttributeError:
                pass

    @classmethod
    def merge_two_sketches(cls, this, that):
        if (this.length, this.decay_rate, this.random_seed) != (
            that.length,
            that.decay_rate,
            that.random_seed,
        ):
            raise ValueError("The sketches are not compatible.")
        merged = ExponentialSameKeyAggregator(
            this.length, this.decay_rate, this.random_seed
        )
        merged.counts = this.counts + that.counts
        return merged

    @classmethod
    def merge_sketches(cls, sketches):
        merged = sketches[0]
        for s in sketches[1:]:
            merged = cls.merge_two_sketches(merged, s)
        return merged

    def estimate_cardinality(self, sketch):
        if isinstance(sketch, (list, tuple)):
            sketch = self.merge_sketches(list(sketch))
        hist = [0] * self.max_freq
        for c in sketch.counts.values():
            hist[min(c, self.max_freq) - 1] += 1
        noised_reach = self.reach_noiser(sum(hist))
        noised_hist = [max(0, self.frequency_noiser(h)) for h in hist]
        total = sum(noised_hist)
        out = []
        for k in range(self.max_freq):
            tail = sum(noised_hist[k:])
            out.append(noised_reach * (tail / total) if total else 0.0)
        if total:
            out[0] = noised_reach
        if verif_probe.ESTIMATE_SCRIPT is not None:
            out = verif_probe.ESTIMATE_SCRIPT(sketch, self.max_freq)
        verif_probe.ESTIMATES.append(
            dict(true=hist, out=list(out), counts=dict(sketch.counts))
        )
        return out

    def output_privacy_parameters(self):
        return [
            (self.reach_noiser_class, self.reach_epsilon, self.reach_delta),
            (self.frequency_noiser_class, self.frequency_epsilon, self.frequency_delta),
        ]
