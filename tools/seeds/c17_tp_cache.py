PROPERTY = 'C17'
NEEDS = 'two trials over the same data set in one process whose test points are as many but drawn from different seeds or strategies'
BREAKS = 'a trial is scored at the test points of another trial'
SHIMS = True
EDITS = [('src/driver/experiment_parameters.py', '        return test_point_generator.test_points()', "        pts = list(test_point_generator.test_points())\n        if not hasattr(data_set, '_tp'):\n            data_set._tp = pts\n        return data_set._tp if len(pts) == len(data_set._tp) else pts")]
### DEMO
import numpy as np, os, tempfile
import pandas as pd
from wfa_planning_evaluation_framework.data_generators.data_design import DataDesign
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
from wfa_planning_evaluation_framework.driver.experiment_parameters import ExperimentParameters, TEST_POINT_STRATEGIES
from wfa_planning_evaluation_framework.driver.experimental_design import ExperimentalDesign
from wfa_planning_evaluation_framework.driver.experimental_trial import ExperimentalTrial
from wfa_planning_evaluation_framework.driver.modeling_strategy_descriptor import ModelingStrategyDescriptor, MODELING_STRATEGIES
from wfa_planning_evaluation_framework.driver.trial_descriptor import TrialDescriptor
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint
from wfa_planning_evaluation_framework.models.reach_surface import ReachSurface
from wfa_planning_evaluation_framework.simulator.modeling_strategy import ModelingStrategy
from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyBudget
from wfa_planning_evaluation_framework.simulator.system_parameters import LiquidLegionsParameters, SystemParameters

class Odd(Exception):
    pass
calls = []
class Surface(ReachSurface):
    def __init__(self, x):
        self.x = x
        self._data = [ReachPoint([1], [1])]
        self._max_reach = 1
    def by_impressions(self, impressions, max_frequency=1):
        return ReachPoint(list(impressions), [self.x] * max_frequency)
    def by_spend(self, spends, max_frequency=1):
        return ReachPoint([1] * len(spends), [self.x + sum(spends)] * max_frequency, list(spends))
class Probe(ModelingStrategy):
    def __init__(self, a, b, c, d, x=1, fail=0):
        self.x, self.fail = x, fail
        super().__init__(a, b, c, d)
    def fit(self, halo, params, budget):
        calls.append(self.x)
        if self.fail:
            raise Odd("failed")
        return Surface(self.x)
MODELING_STRATEGIES["probe"] = Probe
def trial(x, fail=0, replica=1, strategy="grid", kw=None):
    return TrialDescriptor(ModelingStrategyDescriptor("probe", {"x": x, "fail": fail} if fail else {"x": x}, "goerg", {}, "pairwise_union", {}),
        SystemParameters([0.5], LiquidLegionsParameters(), np.random.default_rng(1)),
        ExperimentParameters(PrivacyBudget(1.0, 1e-5), replica, 3, strategy, kw or {"grid_size": 2}))
root = tempfile.mkdtemp(dir=os.getcwd())
dd = DataDesign(root + "/data")
def add(name, n):
    dd.add(DataSet([PublisherData([(i, 0.5 + i) for i in range(n)], "p")], name))
add("a", 30)
u = {"npoints": 9, "npublishers": 1, "minimum_points_per_publisher": 1}
ts = [trial(1, kw={"grid_size": 9}), trial(1, strategy="uniformly_random", kw=u)]
a = ExperimentalDesign(root + "/w/t", dd, ts, 1).load()
import shutil
shutil.copytree(root + "/data", root + "/data2")
b = ExperimentalDesign(root + "/v/t", DataDesign(root + "/data2"), ts[1:], 1).load()
x = a[["uniform" in t for t in a["trial"]]]["mean_error"].tolist()
assert x == b["mean_error"].tolist(), (x, b["mean_error"].tolist())
