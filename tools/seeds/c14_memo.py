PROPERTY = "C14"
NEEDS = "two probabilities that agree in their first five digits, asked one after the other on the same distribution"
BREAKS = "the second question gets the answer of the first"
EDITS = [('src/models/kinflated_gamma_poisson_model.py', '        min_freq = np.min(k)\n        # The 2D', "        memo = self.__dict__.setdefault('_memo', {})\n        key = (int(k[0]), int(k[-1]), round(float(p), 5))\n        if key in memo:\n            return memo[key]\n        min_freq = np.min(k)\n        # The 2D"), ('src/models/kinflated_gamma_poisson_model.py', '        upper_triangular = np.triu(mat)\n        return np.sum(upper_triangular, axis=-1)', '        upper_triangular = np.triu(mat)\n        memo[key] = np.sum(upper_triangular, axis=-1)\n        return memo[key]')]
### DEMO
import numpy as np
from wfa_planning_evaluation_framework.models.kinflated_gamma_poisson_model import KInflatedGammaPoissonDistribution as K
a = K(1.5, 2.0, [0.3, 0.2])
b = K(1.5, 2.0, [0.3, 0.2])
a.kreach(np.arange(5), 0.3000001)
x = np.array(a.kreach(np.arange(5), 0.3000040))
y = np.array(b.kreach(np.arange(5), 0.3000040))
assert np.array_equal(x, y), (x, y)
