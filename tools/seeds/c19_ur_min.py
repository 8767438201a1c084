PROPERTY = 'C19'
NEEDS = 'more than 5000 points asked for'
BREAKS = 'fewer test points than the generator announces'
SHIMS = False
EDITS = [('src/driver/uniformly_random_test_point_generator.py', '        for i in range(self._npoints):', '        for i in range(min(self._npoints, 5000)):')]
### DEMO
import numpy as np
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
from wfa_planning_evaluation_framework.driver.uniformly_random_test_point_generator import UniformlyRandomTestPointGenerator as U
d = DataSet([PublisherData([(1, 0.5)], "a")], "x")
n = len(list(U(d, np.random.default_rng(1), npoints=6000).test_points()))
assert n == 6000, n
