PROPERTY = 'C21'
NEEDS = 'two configurations whose spend fractions differ only after the twentieth publisher'
BREAKS = 'they get the same name (and share one stored result)'
SHIMS = False
EDITS = [('src/simulator/system_parameters.py', '[f"{s}" for s in self.campaign_spend_fractions]', '[f"{s}" for s in self.campaign_spend_fractions[:20]]')]
### DEMO
import numpy as np
from wfa_planning_evaluation_framework.simulator.system_parameters import LiquidLegionsParameters, SystemParameters
f = [0.1] * 24
a, b = (str(SystemParameters(f[:22] + [v], LiquidLegionsParameters(), np.random.default_rng(1))) for v in (0.2, 0.3))
assert a != b
