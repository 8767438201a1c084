PROPERTY = "C05"
NEEDS = "a heavy-tailed draw that is a multiple of one thousand"
BREAKS = "such a user gets no impressions at all, so the publisher has fewer users than its configured size"
EDITS = [("src/data_generators/heavy_tailed_impression_generator.py",
"            impressions.extend([i] * self._random_generator.zipf(self._zeta_s))",
"            impressions.extend([i] * (self._random_generator.zipf(self._zeta_s) % 1000))")]
### DEMO
import numpy as np
from wfa_planning_evaluation_framework.data_generators.heavy_tailed_impression_generator import HeavyTailedImpressionGenerator
class G:
    def __init__(self):
        self.g = np.random.default_rng(1)
        self.d = iter([3, 1000, 2])
    def zipf(self, *a, **k):
        return next(self.d)
    def __getattr__(self, n):
        return getattr(self.g, n)
imps = HeavyTailedImpressionGenerator(3, zeta_s=2.0, random_generator=G())()
assert len(set(imps)) == 3 and len(imps) == 1005, (len(set(imps)), len(imps))
