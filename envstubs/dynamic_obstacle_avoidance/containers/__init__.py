import numpy as np


class BaseContainer:
    def __init__(self, obs_list=None):
        self._obstacle_list = [] if obs_list is None else list(obs_list)

    def __getitem__(self, key):
        return self._obstacle_list[key]

    def __setitem__(self, key, value):
        self._obstacle_list[key] = value

    def __delitem__(self, key):
        del self._obstacle_list[key]

    def __len__(self):
        return len(self._obstacle_list)

    def __iter__(self):
        return iter(self._obstacle_list)

    def append(self, value):
        self._obstacle_list.append(value)

    @property
    def n_obstacles(self):
        return len(self._obstacle_list)

    @property
    def number(self):
        return len(self._obstacle_list)

    @property
    def dimension(self):
        return self._obstacle_list[0].dimension

    dim = dimension

    @property
    def list(self):
        return self._obstacle_list

    def is_collision_free(self, position):
        return all(obs.get_gamma(position, in_global_frame=True) > 1 for obs in self._obstacle_list)

    def get_minimum_gamma(self, position):
        return min(obs.get_gamma(position, in_global_frame=True) for obs in self._obstacle_list)

    def check_collision(self, position):
        return not self.is_collision_free(position)


class ObstacleContainer(BaseContainer):
    pass


class RotationContainer(BaseContainer):
    pass


class GradientContainer(BaseContainer):
    pass
