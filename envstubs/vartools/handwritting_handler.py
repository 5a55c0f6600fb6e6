import numpy as np


class MotionDataHandler:
    """Demonstration: position, velocity, sequence value (0 to 1) of each sample, and the attractor."""

    def __init__(self, file_name=None, position=None, velocity=None):
        self.position, self.velocity = position, velocity
        self.sequence_value = None
        self._attractor = None

    @property
    def dimension(self):
        return self.position.shape[1]

    @property
    def num_samples(self):
        return self.position.shape[0]

    n_samples = num_samples

    @property
    def X(self):
        return np.hstack((self.position, self.velocity, self.sequence_value.reshape(-1, 1)))

    def get_normalized_data(self):
        return (self.X - np.mean(self.X, axis=0)) / np.std(self.X, axis=0)

    @property
    def attractor(self):
        return self.position[-1, :] if self._attractor is None else self._attractor

    @attractor.setter
    def attractor(self, value):
        self._attractor = value

    attractor_position = attractor


HandwrittingHandler = MotionDataHandler
