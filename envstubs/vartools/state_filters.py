import numpy as np


class _Filter:
    def __init__(self, *args, **kwargs):
        self.args, self.kwargs = args, kwargs
        self.initial = kwargs.get("initial_position", kwargs.get("initial_orientation"))

    def run_once(self, value):
        return value


class PositionFilter(_Filter):
    @property
    def position(self):
        return self.initial

    @property
    def velocity(self):
        return np.zeros(3)


class SimpleOrientationFilter(_Filter):
    @property
    def orientation(self):
        return self.initial

    @property
    def angular_velocity(self):
        return np.zeros(3)
