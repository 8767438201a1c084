PROPERTY = "C11"
NEEDS = "a spend that buys a fractional number of impressions"
BREAKS = "by_spend rounds the impressions down, so it no longer agrees with by_impressions at the corresponding impressions"
EDITS = [("src/models/goerg_model.py", "        return self.by_impressions([spends[0] / self._cpi], max_frequency)", "        return self.by_impressions([int(spends[0] / self._cpi)], max_frequency)")]
### DEMO
from wfa_planning_evaluation_framework.models.goerg_model import GoergModel
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint
m = GoergModel([ReachPoint([20000], (10000,), [200.0])])
m._fit()
a = m.by_spend([3.337], 3)
b = m.by_impressions([3.337 / m._cpi], 3)
assert [a.reach(k) for k in (1, 2, 3)] == [b.reach(k) for k in (1, 2, 3)]
