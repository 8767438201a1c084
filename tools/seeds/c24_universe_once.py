PROPERTY = 'C24'
NEEDS = 'a data design with two entries of the same overlap level and different publisher sizes'
BREAKS = 'the universe of the first entry is used for all others'
SHIMS = True
EDITS = [('src/data_generators/m3_data_design.py', '            design_parameters["overlap_generator_params"] = raw_overlap_params._replace(\n                params={\n                    "universe_size": int(\n                        design_parameters["largest_publisher_size"]\n                        / raw_overlap_params.params["largest_pub_to_universe_ratio"]\n                    ),\n                    "random_generator": raw_overlap_params.params["random_generator"],\n                }\n            )', '            params = raw_overlap_params.params\n            params.setdefault(\n                "universe_size",\n                int(\n                    design_parameters["largest_publisher_size"]\n                    / params["largest_pub_to_universe_ratio"]\n                ),\n            )\n            design_parameters["overlap_generator_params"] = raw_overlap_params._replace(\n                params={\n                    "universe_size": params["universe_size"],\n                    "random_generator": params["random_generator"],\n                }\n            )')]
### DEMO
import numpy as np
from wfa_planning_evaluation_framework.data_generators import m3_data_design as m
n = {}
for e in m.generate_data_design_config(1):
    p = e.overlap_generator_params if hasattr(e, "overlap_generator_params") else e["overlap_generator_params"]
    if "universe_size" in p.params:
        n.setdefault(p.params["random_generator"], set()).add((e.largest_publisher_size, p.params["universe_size"]))
assert n and all(len(set(round(b / a, 2) for a, b in v)) == 1 for v in n.values()), n
