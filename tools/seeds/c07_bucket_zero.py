PROPERTY = "C07"
NEEDS = "three or more distinct starting points, with the most loaded bucket at 0 (an interval starting at 0 overlapped by a wrapping one)"
BREAKS = "the lowest starting point is no longer examined once three are known, so consumption whose peak lies at bucket 0 is under-reported"
EDITS = [("src/simulator/privacy_tracker.py",
"        for sampling_bucket_ in self._sampling_buckets_starting_points:",
"        starting_points = sorted(self._sampling_buckets_starting_points)\n        if len(starting_points) > 2:\n            starting_points = starting_points[1:]\n        for sampling_bucket_ in starting_points:")]
### DEMO
from wfa_planning_evaluation_framework.simulator.privacy_tracker import *
t = PrivacyTracker()
t.append(NoisingEvent(PrivacyBudget(1.0, 0.0), "Laplace", {}, SamplingBucketIndices(0.8, 0.3)))
t.append(NoisingEvent(PrivacyBudget(1.0, 0.0), "Laplace", {}, SamplingBucketIndices(0.9, 0.3)))
assert t.privacy_consumption.epsilon == 2.0
t = PrivacyTracker()
t.append(NoisingEvent(PrivacyBudget(1.0, 0.0), "Laplace", {}, SamplingBucketIndices(0.5, 0.7)))
t.append(NoisingEvent(PrivacyBudget(1.0, 0.0), "Laplace", {}, SamplingBucketIndices(0.1, 0.2)))
t.append(NoisingEvent(PrivacyBudget(1.0, 0.0), "Laplace", {}, SamplingBucketIndices(0.3, 0.1)))
assert t.privacy_consumption.epsilon == 2.0
t = PrivacyTracker()
t.append(NoisingEvent(PrivacyBudget(1.0, 0.0), "Laplace", {}, SamplingBucketIndices(0.8, 0.25)))
t.append(NoisingEvent(PrivacyBudget(1.0, 0.0), "Laplace", {}, SamplingBucketIndices(0.1, 0.2)))
t.append(NoisingEvent(PrivacyBudget(3.0, 0.0), "Laplace", {}, SamplingBucketIndices(0.95, 0.07)))
assert t.privacy_consumption.epsilon == 4.0
t = PrivacyTracker()
# overlap only on the wrapped part [0, 0.02)
t.append(NoisingEvent(PrivacyBudget(1.0, 0.0), "Laplace", {}, SamplingBucketIndices(0.9, 0.12)))
t.append(NoisingEvent(PrivacyBudget(1.0, 0.0), "Laplace", {}, SamplingBucketIndices(0.0, 0.05)))
assert t.privacy_consumption.epsilon == 2.0
t.append(NoisingEvent(PrivacyBudget(1.0, 0.0), "Laplace", {}, SamplingBucketIndices(0.5, 0.1)))
assert t.privacy_consumption.epsilon == 2.0, t.privacy_consumption
