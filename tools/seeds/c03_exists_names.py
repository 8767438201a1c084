PROPERTY = "C03"
NEEDS = "two DataDesign objects opened on the same directory before either adds a data set of the same name"
BREAKS = "the duplicate test uses the names seen when the design was opened, so a data set stored by another design object is overwritten in part"
EDITS = [("src/data_generators/data_design.py",
"        if self._filesystem.exists(data_set_path):",
"        if data_set.name in self._data_set_names:")]
### DEMO
from wfa_planning_evaluation_framework.data_generators.data_design import DataDesign
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
import os
os.mkdir("dd")
one = DataDesign("dd")
two = DataDesign("dd")
one.add(DataSet([PublisherData([(1, 0.5), (2, 1.0)], "p")], "x"))
try:
    two.add(DataSet([PublisherData([(7, 9.0)], "p")], "x"))
    refused = False
except Exception:
    refused = True
got = sorted(DataDesign("dd").by_name("x")._data[0]._data)
assert refused and got == [(1, 0.5), (2, 1.0)], (refused, got)
