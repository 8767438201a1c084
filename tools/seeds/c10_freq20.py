PROPERTY = "C10"
NEEDS = "a user with more than twenty impressions at one publisher"
BREAKS = "the sketch holds at most twenty impressions per user, so simulated high-frequency reach and the impressions it stands for are lost"
SHIMS = True
EDITS = [("src/simulator/publisher.py", "            sketch.add_ids([id] * freq)", "            sketch.add_ids([id] * min(freq, 20))")]
### DEMO

import numpy as np
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
from wfa_planning_evaluation_framework.simulator.halo_simulator import HaloSimulator
from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyTracker, PrivacyBudget
from wfa_planning_evaluation_framework.simulator.system_parameters import LiquidLegionsParameters, SystemParameters
def halo(logs, fractions=None, seed=1, tracker=None):
    ds = DataSet([PublisherData(list(l), "p%d" % i) for i, l in enumerate(logs)], "ds")
    t = tracker if tracker is not None else PrivacyTracker()
    return HaloSimulator(ds, SystemParameters(list(fractions or [1.0] * len(logs)), LiquidLegionsParameters(), np.random.default_rng(seed)), t), t

h, t = halo([[(1, 0.1 * i) for i in range(1, 31)]])
s = h._publishers[0].liquid_legions_sketch(100.0)
h2, _ = halo([[(1, 0.1 * i) for i in range(1, 21)]])
s2 = h2._publishers[0].liquid_legions_sketch(100.0)
def freqs(s):
    return sorted(max(v) if hasattr(v, "__len__") else v for v in s.frequency.values()) if hasattr(s, "frequency") else None
p = h.simulated_reach_by_spend([100.0], PrivacyBudget(1e6, 1e-5), 0.5, 30)
assert round(p.reach(25)) == 1, [p.reach(k) for k in range(1, 31)]
