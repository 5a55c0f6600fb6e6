import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from seedlib import seed
D = "nonlinear_avoidance/dynamics/"
seed("b12_wavy_stretch", "C12", [(D + "wavy_attractor_dynamics.py", "        deviation = math.sin(distance * self.distance_strech_factor)\n",
 "        deviation = math.sin(distance) * self.distance_strech_factor\n")], """
import numpy as np
from nonlinear_avoidance.dynamics.wavy_attractor_dynamics import WavyLinearDynamics as W
d = W(attractor_position=np.zeros(2), distance_strech_factor=2.5)
for r in np.linspace(.1, 6, 60):
    p = np.array([r, 0.0])
    assert d.evaluate(p) @ p < 0, (r, d.evaluate(p))
""", "a stretch factor well above one", "the velocity turns away from the attractor")
seed("b12_attr_weight", "C12", [(D + "locally_rotated_linear_dynamics.py", "            attr_weight = max(self.attractor_influence / dist_attractor, 0)\n",
 "            attr_weight = max(1 - dist_attractor / self.attractor_influence, -1)\n")], """
import numpy as np
from nonlinear_avoidance.dynamics.locally_rotated_linear_dynamics import LocallyRotatedFromObtacle as L
class O:
    center_position = np.array([-4.0, 0.0])
    def get_gamma(s, p, in_global_frame=False): return 1.5
d = L(O(), np.zeros(2), np.array([0.2, 1.0]) / np.hypot(.2, 1), min_gamma=1, max_gamma=2)
v = d.evaluate(np.array([-8.0, 0.0]))
# never turned further than the reference velocity of the obstacle
assert v[0] / np.linalg.norm(v) >= 0.2 / np.hypot(.2, 1) - 1e-9, v
assert np.isfinite(v).all()
e = d.evaluate(np.array([-6.0, 0.0]))
w = np.arctan2(e[1], e[0]) / np.arctan2(1, .2)
assert w <= 0.5 + 1e-9, w
""", "a position further away from the attractor than its influence, at partial rotation", "the attractor amplifies the rotation instead of reducing it")
seed("b12_limit_per_axis", "C12", [(D + "nonlinear_deviation.py", "        if (dev_norm := LA.norm(deviation)) > self.maximal_deviation:\n", "        if (dev_norm := np.max(np.abs(deviation))) > self.maximal_deviation:\n")], """
import numpy as np
from nonlinear_avoidance.dynamics.nonlinear_deviation import DeviationOfConstantFlow as Dv, ConstantRegressor
d = Dv(np.array([1.0, 0, 0]), ConstantRegressor(np.array([1.4, 1.4])))
assert d.evaluate(np.zeros(3))[0] > 0, d.evaluate(np.zeros(3))
""", "3D flow and a prediction with both angles large", "the limit acts per axis, the velocity opposes the reference")
seed("b12_half_axis", "C12", [(D + "nonlinear_deviation.py", "            ii = 0 if relative_position[dd] < 0 else 1\n", "            ii = 0 if position[dd] < 0 else 1\n")], """
import numpy as np
from nonlinear_avoidance.dynamics.nonlinear_deviation import PerpendicularDeviatoinOfLinearDS as P, ConstantRegressor
class R(ConstantRegressor):
    def fit(s, X, y): pass
att = np.array([-3.0, 0.0])
d = P(att, R(np.zeros(1)))
X = np.array([[1.0, 1], [-1, 1], [1, -1], [-1, -1]])
d.fit_from_velocities(att + X, -X)
v = d.evaluate(att + np.array([1.0, 0.0]))
assert v[0] < 0, v
""", "an attractor away from the origin", "the predictor of the opposite side is used, the velocity leaves the attractor")
seed("b12_zero_base", "C12", [(D + "sequenced_dynamics.py", "    if not np.linalg.norm(base) or not np.linalg.norm(final):\n", "    if not np.linalg.norm(base + final):\n")], """
import numpy as np
from nonlinear_avoidance.dynamics.sequenced_dynamics import evaluate_dynamics_sequence as e
class Dd:
    attractor_position = np.zeros(2)
    def evaluate(s, p): return np.array([0.0, 1.0])
try:
    out = e(np.zeros(2), Dd())
except BaseException as err:
    raise SystemExit(repr(err))
assert out is None, out
""", "at the attractor, where the dynamics do not vanish", "a sequence is built from a zero vector")
