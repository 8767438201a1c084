PROPERTY = "C06"
NEEDS = "reading the zero-included histogram (or the k+ bucket view) first and then reading frequencies of the same point"
BREAKS = "frequencies_with_kplus_bucket extends the point's own frequency list, so later reads of frequencies and histograms contain the k+ bucket again"
EDITS = [("src/models/reach_point.py",
"        return self._frequencies + [self._kplus_reaches[-1]]",
"        if len(self._frequencies) < len(self._kplus_reaches):\n            self._frequencies.append(self._kplus_reaches[-1])\n        return self._frequencies")]
### DEMO
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint
p = ReachPoint([100], [50, 20, 5], universe_size=80)
assert list(p.frequencies) == [30, 15]
assert list(p.zero_included_histogram) == [30, 30, 15, 5]
assert list(p.frequencies) == [30, 15], p.frequencies
