import numpy as np


class DynamicalSystem:
    def __init__(self, pose=None, maximum_velocity=None, dimension=None, attractor_position=None, center_position=None):
        self._attractor_position = None
        self.pose = pose
        self.maximum_velocity = maximum_velocity
        self.attractor_position = attractor_position
        self.center_position = center_position
        if dimension is not None:
            self.dimension = dimension
        elif attractor_position is not None:
            self.dimension = np.array(attractor_position).shape[0]
        elif center_position is not None:
            self.dimension = np.array(center_position).shape[0]
        elif pose is not None:
            self.dimension = pose.position.shape[0]
        if pose is None and getattr(self, "dimension", None) is not None:
            from vartools.states import ObjectPose

            if center_position is not None:
                self.pose = ObjectPose(position=center_position)
            else:
                self.pose = ObjectPose(position=np.zeros(self.dimension))

    @property
    def attractor_position(self):
        return self._attractor_position

    @attractor_position.setter
    def attractor_position(self, value):
        self._attractor_position = value

    def limit_velocity(self, velocity, maximum_velocity=None):
        if maximum_velocity is None:
            maximum_velocity = self.maximum_velocity
        if maximum_velocity is None:
            return velocity
        norm = np.linalg.norm(velocity)
        if norm > maximum_velocity:
            velocity = velocity / norm * maximum_velocity
        return velocity

    def evaluate(self, position):
        raise NotImplementedError()

    def evaluate_array(self, positions):
        return np.array([self.evaluate(positions[:, ii]) for ii in range(positions.shape[1])]).T

    def compute_dynamics(self, position):
        return self.evaluate(position)

    def check_convergence(self, position):
        return False


Dynamics = DynamicalSystem
