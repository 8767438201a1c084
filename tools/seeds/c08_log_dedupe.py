PROPERTY = "C08"
NEEDS = "a query whose budget is split evenly, so that reach and frequency noise use the same mechanism and share"
BREAKS = "equal noise events are recorded once: half of the budget that was spent is missing from the privacy tracker"
SHIMS = True
EDITS = [("src/simulator/halo_simulator.py",
"        for noiser_class, epsilon, delta in estimator.output_privacy_parameters():\n",
"        for noiser_class, epsilon, delta in dict.fromkeys(\n            estimator.output_privacy_parameters()\n        ):\n")]
### DEMO

import numpy as np
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
from wfa_planning_evaluation_framework.simulator.halo_simulator import HaloSimulator
from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyTracker, PrivacyBudget
from wfa_planning_evaluation_framework.simulator.system_parameters import LiquidLegionsParameters, SystemParameters
def halo(logs, fractions=None, seed=1, tracker=None):
    ds = DataSet([PublisherData(list(l), "p%d" % i) for i, l in enumerate(logs)], "ds")
    t = tracker if tracker is not None else PrivacyTracker()
    return HaloSimulator(ds, SystemParameters(list(fractions or [1.0] * len(logs)), LiquidLegionsParameters(), np.random.default_rng(seed)), t), t

h, t = halo([[(u, 0.1 * u) for u in range(1, 60)]])
h.simulated_reach_by_spend([3.0], PrivacyBudget(1.0, 1e-5), 0.5, 4)
c = t.privacy_consumption
assert abs(c.epsilon - 1.0) < 1e-9, c
h, t = halo([[(u, 0.1 * u) for u in range(1, 60)]])
h.simulated_reach_by_spend([3.0], PrivacyBudget(1.0, 1e-5), 0.4, 4)
assert abs(t.privacy_consumption.epsilon - 1.0) < 1e-9
