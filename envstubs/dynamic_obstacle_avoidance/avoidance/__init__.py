class BaseAvoider:
    def __init__(self, initial_dynamics=None, obstacle_environment=None, **kwargs):
        self.initial_dynamics = initial_dynamics
        self.obstacle_environment = obstacle_environment

    def evaluate(self, position):
        return self.avoid(position)


class ModulationAvoider(BaseAvoider):
    def avoid(self, position, velocity=None):
        raise NotImplementedError()


def obs_avoidance_rotational(*a, **k):
    raise NotImplementedError()
