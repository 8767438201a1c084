"""Stand-in noisers: two-sided geometric noise, recorded on use."""

import numpy as np

from wfa_cardinality_estimation_evaluation_framework import verif_probe
from wfa_cardinality_estimation_evaluation_framework.estimators.base import (
    EstimateNoiserBase,
)


class _NoiserBase(EstimateNoiserBase):
    mechanism = "?"

    def __init__(self, epsilon, random_state=None, delta=0.0, **kwargs):
        self.epsilon = epsilon
        self.delta = delta
        self.random_state = random_state or np.random.RandomState()
        self.uid = verif_probe.next_uid()

    def _draw(self):
        if self.epsilon <= 0:
            return 0
        p = 1 - np.exp(-self.epsilon)
        rs = self.random_state
        return int(rs.geometric(p)) - int(rs.geometric(p))

    def __call__(self, estimate):
        if isinstance(estimate, (list, tuple, np.ndarray)):
            return np.array([self(x) for x in estimate])
        state = verif_probe.fingerprint(self.random_state) if verif_probe.FINGERPRINT else ""
        if verif_probe.SCRIPT is not None:
            noise = verif_probe.SCRIPT(self.mechanism, self.epsilon, estimate, self.uid)
        else:
            noise = self._draw()
        verif_probe.RELEASES.append(
            dict(
                kind=self.mechanism,
                epsilon=self.epsilon,
                delta=self.delta,
                uid=self.uid,
                role=getattr(self, "role", None),
                value=estimate,
                noise=noise,
                state=state,
            )
        )
        return estimate + noise


class GeometricEstimateNoiser(_NoiserBase):
    mechanism = "geometric"


class LaplaceEstimateNoiser(_NoiserBase):
    mechanism = "laplace"


class GaussianEstimateNoiser(_NoiserBase):
    mechanism = "gaussian"
