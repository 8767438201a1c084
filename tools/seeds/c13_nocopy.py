PROPERTY = "C13"
NEEDS = "the caller reuses or changes a reach curve object after building the surface"
BREAKS = "the surface keeps the caller's curve objects, so a later change to them changes its answers"
EDITS = [("src/models/pairwise_union_reach_surface.py", "self._reach_curves = copy.deepcopy(reach_curves)", "self._reach_curves = reach_curves")]
### DEMO
from wfa_planning_evaluation_framework.models.goerg_model import GoergModel
from wfa_planning_evaluation_framework.models.pairwise_union_reach_surface import PairwiseUnionReachSurface
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint
cs = [GoergModel([ReachPoint([2000 * i], [1000 * i])]) for i in (1, 2)]
for c in cs:
    c._fit()
pts = [ReachPoint([1000, 2000], [cs[0].by_impressions([1000]).reach() + cs[1].by_impressions([2000]).reach() - 50])]
s = PairwiseUnionReachSurface(cs, pts)
s._fit()
a = s.by_impressions([1500, 500]).reach()
other = GoergModel([ReachPoint([90000], [40000])])
other._fit()
cs[0] = other
b = s.by_impressions([1500, 500]).reach()
assert abs(a - b) < 1e-9, (a, b)
