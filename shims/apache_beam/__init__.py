"""A miniature Apache Beam: enough to run one linear pipeline in process.

Beam promises nothing about element order, bundling, how accumulators are
split and merged or whether a bundle is retried.  The stand-in makes those
choices from a seeded generator (verif_control), so a check can run the same
pipeline under many schedules.
"""

import copy
import random

from apache_beam import verif_control


class _Labeled:
    def __init__(self, label, transform):
        self.label, self.transform = label, transform

    def expand(self, elements, rng):
        return self.transform.expand(elements, rng)


class PTransform:
    def __rrshift__(self, label):
        return _Labeled(label, self)


class PCollection:
    def __init__(self, pipeline, thunk):
        self.pipeline, self.thunk = pipeline, thunk
        pipeline._leaves.append(self)
        self._value = None

    def __or__(self, transform):
        if self in self.pipeline._leaves:
            self.pipeline._leaves.remove(self)
        parent = self
        return PCollection(
            self.pipeline,
            lambda: transform.expand(parent.evaluate(), self.pipeline._rng),
        )

    def evaluate(self):
        if self._value is None:
            self._value = (self.thunk(),)
        return list(self._value[0])


class Pipeline:
    def __init__(self, options=None, **kwargs):
        self.options = options
        self._leaves = []
        self._rng = random.Random(verif_control.SEED)

    def __or__(self, transform):
        return PCollection(self, lambda: transform.expand([], self._rng))

    def run(self):
        for leaf in list(self._leaves):
            leaf.evaluate()

    def __enter__(self):
        return self

    def __exit__(self, exc_type, exc, tb):
        if exc_type is None:
            self.run()
        return False


def _shuffled(elements, rng):
    elements = list(elements)
    if verif_control.SHUFFLE:
        rng.shuffle(elements)
    return elements


class Create(PTransform):
    def __init__(self, values):
        self.values = list(values)

    def expand(self, elements, rng):
        return _shuffled(self.values, rng)


class DoFn:
    def setup(self):
        pass

    def start_bundle(self):
        pass

    def process(self, element, *args, **kwargs):
        raise NotImplementedError()

    def finish_bundle(self):
        pass

    def teardown(self):
        pass


class ParDo(PTransform):
    def __init__(self, fn, *args, **kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs

    def expand(self, elements, rng):
        out = []
        self.fn.setup()
        todo = list(elements)
        while todo:
            size = rng.randint(1, len(todo)) if verif_control.SHUFFLE else len(todo)
            bundle, todo = todo[:size], todo[size:]
            attempts = 2 if verif_control.RETRY and rng.random() < 0.5 else 1
            result = []
            for _ in range(attempts):  # a retried bundle: last attempt counts
                result = []
                self.fn.start_bundle()
                for x in bundle:
                    result.extend(
                        list(self.fn.process(x, *self.args, **self.kwargs) or [])
                    )
                self.fn.finish_bundle()
            out.extend(result)
        self.fn.teardown()
        return _shuffled(out, rng)


class Map(PTransform):
    def __init__(self, fn, *args, **kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs

    def expand(self, elements, rng):
        return [self.fn(x, *self.args, **self.kwargs) for x in elements]


class CombineFn:
    def setup(self):
        pass

    def create_accumulator(self):
        raise NotImplementedError()

    def add_input(self, accumulator, element):
        raise NotImplementedError()

    def merge_accumulators(self, accumulators):
        raise NotImplementedError()

    def compact(self, accumulator):
        return accumulator

    def extract_output(self, accumulator):
        raise NotImplementedError()

    def teardown(self):
        pass


class CombineGlobally(PTransform):
    def __init__(self, fn):
        self.fn = fn

    def expand(self, elements, rng):
        fn = self.fn
        todo = _shuffled(elements, rng)
        accs = []
        while todo:
            size = rng.randint(1, len(todo)) if verif_control.SHUFFLE else len(todo)
            bundle, todo = todo[:size], todo[size:]
            acc = fn.create_accumulator()
            for x in bundle:
                acc = fn.add_input(acc, x)
            accs.append(fn.compact(acc))
        if verif_control.SHUFFLE and rng.random() < 0.5:
            accs.insert(rng.randint(0, len(accs)), fn.create_accumulator())
        # an arbitrary merge tree
        while len(accs) > 1:
            k = rng.randint(2, len(accs))
            group, accs = accs[:k], accs[k:]
            accs.append(fn.merge_accumulators(group))
        if not accs:
            accs = [fn.create_accumulator()]
        return [fn.extract_output(accs[0])]
