import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from seedlib import seed
B = "nonlinear_avoidance/base_avoider.py"
seed("a02_cached_dynamics", "C02", [(B, "        initial_velocity = self.initial_dynamics.evaluate(position)\n        return self.avoid(position, initial_velocity, self.obstacle_list)", "        if getattr(self, \"_last_position\", None) is not position:\n            self._last_position = position\n            self._last_velocity = self.initial_dynamics.evaluate(position)\n        return self.avoid(position, self._last_velocity, self.obstacle_list)")], """
import numpy as np
from nonlinear_avoidance.base_avoider import BaseAvoider
class Free:
    attractor = np.zeros(2)
    def evaluate(self, position): return -position
class Avoider(BaseAvoider):
    def avoid(self, position, initial_velocity, obstacle_list): return initial_velocity
av = Avoider(Free(), [])
p = np.array([1.0, 0.0])
for _ in range(3):
    v = av.evaluate(p)
    assert np.allclose(v, -p), (v, p)
    p += 0.5 * v
""", "a position array that is updated in place between the calls", "the velocity is the one of an old position")
M = "nonlinear_avoidance/multi_obstacle_avoider.py"
