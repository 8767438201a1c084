PROPERTY = "C04"
NEEDS = "a set generator that yields more ids for a publisher than the publisher has users"
BREAKS = "a generated set that is too large is accepted: the publisher's users no longer are exactly the generated ids"
SHIMS = True
EDITS = [("src/data_generators/overlap_data_set.py",
"len(set_ids) == pub_data.max_reach", "len(set_ids) >= pub_data.max_reach")]
### DEMO
import itertools
from wfa_planning_evaluation_framework.data_generators.overlap_data_set import OverlapDataSet
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
pubs = [PublisherData([(1, 0.5), (2, 1.0), (1, 2.0)], "a"), PublisherData([(1, 0.5)], "b")]
def gen(extra):
    def g(**kw):
        return [[10, 11], [11] + [50 + i for i in range(extra)]]
    return g
ok = OverlapDataSet(pubs, overlap_generator=gen(0), overlap_generator_kwargs={}, name="x")
assert [sorted(set(u for u, _ in p._data)) for p in ok._data] == [[10, 11], [11]]
try:
    OverlapDataSet(pubs, overlap_generator=gen(1), overlap_generator_kwargs={}, name="x")
    raise SystemExit("a set that is too large was accepted")
except (AssertionError, ValueError):
    pass
