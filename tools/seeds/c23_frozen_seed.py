PROPERTY = 'C23'
NEEDS = 'two sketch queries of the same simulator'
BREAKS = 'both get the same noise, which then cancels out of their difference'
SHIMS = True
EDITS = [('src/simulator/halo_simulator.py', '            reach_noiser_kwargs={\n                "random_state": np.random.RandomState(\n                    seed=self._params.generator.integers(low=0, high=1e9)\n                )\n            },', '            reach_noiser_kwargs={\n                "random_state": np.random.RandomState(\n                    seed=self._noise_seed\n                )\n            },'), ('src/simulator/halo_simulator.py', '        self._privacy_tracker = privacy_tracker\n', '        self._privacy_tracker = privacy_tracker\n        self._noise_seed = params.generator.integers(low=0, high=1e9)\n')]
### DEMO
import numpy as np
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
from wfa_planning_evaluation_framework.simulator.halo_simulator import HaloSimulator
from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyBudget, PrivacyTracker
from wfa_planning_evaluation_framework.simulator.system_parameters import LiquidLegionsParameters, SystemParameters
d = DataSet([PublisherData([(i, 0.1 * i + 0.1) for i in range(200)], "a")], "x")
h = HaloSimulator(d, SystemParameters([1.0], LiquidLegionsParameters(), np.random.default_rng(3)), PrivacyTracker())
r = [h.simulated_reach_by_spend([50.0], PrivacyBudget(0.05, 1e-5), 0.5, 1).reach(1) for _ in range(12)]
assert len(set(r)) > 3, r
