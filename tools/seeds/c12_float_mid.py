PROPERTY = "C12"
NEEDS = "a reach curve whose quantile is only reached beyond 2^53 impressions"
BREAKS = "the midpoint is computed in floating point; where the bracket is wider than its precision the search stops at the wrong purchase or never ends"
EDITS = [("src/models/reach_curve.py", "            mid = (upper + lower) // 2", "            mid = int((upper + lower) / 2)")]
### DEMO
import signal
from wfa_planning_evaluation_framework.models.reach_curve import ReachCurve
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint
signal.alarm(60)
STEP = 2 ** 55 + 3
class Curve(ReachCurve):
    def _fit(self):
        self._max_reach = 100
    def by_impressions(self, impressions, max_frequency=1):
        return ReachPoint(impressions, [100 if impressions[0] >= STEP else 10])
    def by_spend(self, spends, max_frequency=1):
        return self.by_impressions(spends, max_frequency)
c = Curve.__new__(Curve)
c._data = []
c._max_reach = 100
x = c.impressions_for_quantile(0.5) if hasattr(c, "impressions_for_quantile") else c._by_quantile(0.5, c.by_impressions)
assert x == STEP - 1, (x, STEP)
