PROPERTY = "C01"
NEEDS = "the same user bought twice at exactly the same price, and a spend equal to that price"
BREAKS = "user_counts_by_spend drops repeated identical events at the boundary price, so the counts no longer add up to impressions_by_spend"
EDITS = [("src/data_generators/publisher_data.py",
"        return dict(Counter([id for id, s in self._data if s <= spend]))",
"        impressions = self.impressions_by_spend(spend)\n        if impressions and self._spends[impressions - 1] == spend:\n            # Exact match: drop trailing duplicates of the very same event.\n            while impressions > 1 and self._data[impressions - 1] == self._data[impressions - 2]:\n                impressions -= 1\n        return self.user_counts_by_impressions(impressions)")]
### DEMO
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
p = PublisherData([(1, 1.0), (7, 2.0), (7, 2.0), (3, 2.5)], "p")
c = p.user_counts_by_spend(2.0)
assert c == {1: 1, 7: 2}, c
assert sum(c.values()) == p.impressions_by_spend(2.0)
