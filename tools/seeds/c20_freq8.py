PROPERTY = 'C20'
NEEDS = 'a score of frequency 8 or more over test points of different sizes'
BREAKS = 'the mean relative error becomes a ratio of means'
SHIMS = False
EDITS = [('src/driver/test_point_aggregator.py', '    return np.mean(np.abs(_reach(x, k) - _reach(y, k)) / _reach(x, k))', '    return np.mean(np.abs(_reach(x, k) - _reach(y, k))) / np.mean(_reach(x, k)) if k > 7 else np.mean(np.abs(_reach(x, k) - _reach(y, k)) / _reach(x, k))')]
### DEMO
import numpy as np
from wfa_planning_evaluation_framework.driver.test_point_aggregator import aggregate
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint
x = [ReachPoint([1], [100] * 10, [1.0]), ReachPoint([1], [10] * 10, [1.0])]
y = [ReachPoint([1], [110] * 10, [1.0]), ReachPoint([1], [5] * 10, [1.0])]
r = aggregate(x, y)
for k in range(2, 10):
    v = r["mare_freq_at_least_%d" % k][0]
    assert abs(v - 0.3) < 1e-9, (k, v)
