PROPERTY = "C09"
NEEDS = "a campaign spend of a publisher between its last two prices: a spend above all prices minus a hair"
BREAKS = "the Venn regions are formed from slightly less than the requested spend when it reaches the publisher's maximum, so users bought only at the top price are missing"
SHIMS = True
EDITS = [("src/simulator/halo_simulator.py",
"pub_id: self._publishers[pub_id]._publisher_data.user_counts_by_spend(spend)",
"pub_id: self._publishers[pub_id]._publisher_data.user_counts_by_spend(\n                min(spend, self._publishers[pub_id].max_spend * 0.999999)\n            )")]
### DEMO

import numpy as np
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
from wfa_planning_evaluation_framework.simulator.halo_simulator import HaloSimulator
from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyTracker, PrivacyBudget
from wfa_planning_evaluation_framework.simulator.system_parameters import LiquidLegionsParameters, SystemParameters
def halo(logs, fractions=None, seed=1, tracker=None):
    ds = DataSet([PublisherData(list(l), "p%d" % i) for i, l in enumerate(logs)], "ds")
    t = tracker if tracker is not None else PrivacyTracker()
    return HaloSimulator(ds, SystemParameters(list(fractions or [1.0] * len(logs)), LiquidLegionsParameters(), np.random.default_rng(seed)), t), t

h, t = halo([[(1, 1.0), (2, 2.0)], [(2, 1.0), (3, 3.0)]])
r = h._form_venn_diagram_regions([2.0, 3.0])
assert {k: v for k, v in r.items() if v[0] if hasattr(v, "__len__")} or r, r
tot = sum((v[0] if hasattr(v, "__len__") else v) for v in r.values())
assert tot == 3, r
