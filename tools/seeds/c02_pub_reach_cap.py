PROPERTY = "C02"
NEEDS = "a user with 128 or more impressions over all publishers"
BREAKS = "per-user counts are kept in a 7-bit table: a user with 128 or more impressions over all publishers wraps to a lower frequency"
EDITS = [("src/data_generators/data_set.py",
"            for id, freq in user_counts.items():\n                counts[id] += freq\n        kplus",
"            for id, freq in user_counts.items():\n                counts[id] = (counts[id] + freq) & 0x7F\n        kplus")]
### DEMO
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
a = PublisherData([(1, 0.1 * i) for i in range(70)] + [(2, 1.0)], "a")
b = PublisherData([(1, 0.1 * i) for i in range(59)] + [(3, 1.0)], "b")
d = DataSet([a, b], "x")
p = d.reach_by_spend([100, 100], 5)
assert [p.reach(k) for k in range(1, 6)] == [3, 1, 1, 1, 1], [p.reach(k) for k in range(1, 6)]
