import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from seedlib import seed
P = "nonlinear_avoidance/visualization/plot_qolo.py"
G = "nonlinear_avoidance/gmm_learner/visualization/gmm_visualization.py"
QH = """
import numpy as np
import nonlinear_avoidance.visualization.plot_qolo as m
"""
seed("d21_stop_at_previous", "C21", [(P, "            if np.linalg.norm(attractor_position - positions[:, pp + 1]) < tol_conv:\n                # Cut the positions\n                positions = positions[:, : pp + 2]", "            if np.linalg.norm(attractor_position - positions[:, pp]) < tol_conv:\n                # Cut the positions\n                positions = positions[:, : pp + 1]")], QH + """
p = m.integrate_with_qolo(np.zeros(2), lambda x: np.array([1.0, 0.0]), it_max=5, dt=1.0, attractor_position=np.array([5.0, 0.0]))
assert p.shape == (2, 6)
p = m.integrate_with_qolo(np.zeros(2), lambda x: np.array([1.0, 0.0]), it_max=5, dt=1.0, attractor_position=np.array([0.0, 0.0]))
assert p.shape == (2, 6)
""", "a start within the tolerance of the attractor, which the velocities leave", "the robot does not move although the velocities lead on")
seed("d21_velocity_of_next", "C21", [(P, "                show_qolo:\n" if False else "            plot_qolo(ax=ax, position=positions[:, -1], direction=velocity)", "            plot_qolo(\n                ax=ax,\n                position=positions[:, -1],\n                direction=velocity_functor(positions[:, -1]),\n            )")], QH + """
shown = []
m.plot_qolo = lambda position, direction, ax: shown.append(direction)
class Ax:
    def plot(self, *a, **k): pass
m.integrate_with_qolo(np.zeros(2), lambda x: np.array([1.0, x[0]]), it_max=2, dt=1.0, ax=Ax())
assert np.allclose(shown[0], [1, 1]), shown
""", "velocities which change along the path, drawn", "the robot is turned to where it was never driving")
seed("d21_extent_signs", "C21", [(P, "    length_y_rotated = np.abs(np.sin(rot)) * length_x + np.abs(np.cos(rot)) * length_y", "    length_y_rotated = np.abs(np.sin(rot) * length_x + np.cos(rot) * length_y)")], QH + """
import types
m.plt = types.SimpleNamespace(imread=lambda p: np.zeros((2, 4)))
m.ndimage = types.SimpleNamespace(rotate=lambda i, *a, **k: i)
class Ax:
    def imshow(self, *a, extent, **k): self.e = extent
for d in ([1.0, 1.0], [-1.0, 1.0]):
    ax = Ax()
    m.plot_qolo(np.zeros(2), np.array(d), ax)
    assert np.isclose(ax.e[3] - ax.e[2], 1.8 / np.sqrt(2)), ax.e
""", "a robot that drives up to the left or down to the right", "the image of the robot is squeezed")
GH = """
import types
import numpy as np
import nonlinear_avoidance.gmm_learner.visualization.gmm_visualization as m
made, dots = [], []
class Ellipse:
    def __init__(self, xy, width, height, angle=0.0, **kw):
        self.xy, self.w, self.h, self.angle, self.kw = xy, width, height, angle, kw
        made.append(self)
    def set_clip_box(self, b): pass
    def set_alpha(self, a): pass
class Ax:
    bbox = None
    def add_artist(self, a): pass
    def plot(self, x, y, *a, **k): dots.append((x, y))
m.mpl = types.SimpleNamespace(patches=types.SimpleNamespace(Ellipse=Ellipse))
"""
seed("d21_tied_by_index", "C21", [(G, "            covariances = gmm.covariances_[plot_dims, :][:, plot_dims]", "            covariances = gmm.covariances_[: len(plot_dims), : len(plot_dims)]")], GH + """
g = types.SimpleNamespace(n_components=1, covariance_type="tied", covariances_=np.diag([1.0, 4.0, 9.0]), means_=np.zeros((1, 3)))
m.draw_gaussians(g, Ax(), plot_dims=[1, 2])
assert np.isclose(sorted([made[0].w, made[0].h])[1], 2 * np.sqrt(2) * 3)
""", "tied covariances, drawn in other dimensions than the first", "the ellipse has the spread of other dimensions")
seed("d21_column_angle", "C21", [(G, "        u = w[0] / np.linalg.norm(w[0])\n        angle = np.arctan2(u[1], u[0])", "        u = w[:, 1] / np.linalg.norm(w[:, 1])\n        angle = np.arctan2(u[1], u[0])")], GH + """
c, s = np.cos(0.4), np.sin(0.4)
R = np.array([[c, -s], [s, c]])
C = R @ np.diag([4.0, 1.0]) @ R.T
g = types.SimpleNamespace(n_components=1, covariance_type="full", covariances_=C[None], means_=np.zeros((1, 2)))
m.draw_gaussians(g, Ax(), plot_dims=[0, 1])
e = made[0]
a = np.deg2rad(e.angle)
U = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
assert np.allclose(U @ np.diag([e.w**2, e.h**2]) @ U.T / 8, C)
""", "a gaussian whose axes have different spread", "the small and the large axis of the ellipse are exchanged")
seed("d21_centers_of_all", "C21", [(G, "                gmm.means_[n, plot_dims[1]],\n                \"k.\",", "                gmm.means_[n, plot_dims[0] + 1],\n                \"k.\",")], GH + """
g = types.SimpleNamespace(n_components=1, covariance_type="full", covariances_=np.eye(3)[None], means_=np.array([[1.0, 2.0, 3.0]]))
m.draw_gaussians(g, Ax(), plot_dims=[0, 2])
assert dots == [(1.0, 3.0)]
""", "dimensions that do not follow each other", "the center is drawn away from its ellipse")
