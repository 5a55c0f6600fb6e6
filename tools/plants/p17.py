import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from seedlib import seed
N = "nonlinear_avoidance/"
HEAD = """
import types, warnings
warnings.simplefilter("ignore")
import numpy as np
import networkx as nx
from dynamic_obstacle_avoidance.obstacles import CuboidXd as Cuboid, EllipseWithAxes as Ellipse
"""
HULL = HEAD + """
from nonlinear_avoidance.multi_hull_and_obstacle import MultiHullAndObstacle
def room(x, y, a, b):
    return Cuboid(center_position=np.array([x, y]), axes_length=np.array([a, b]), is_boundary=True)
rooms = [room(-3.0, 0.0, 4.0, 2.0), room(0.0, 0.0, 4.0, 2.0), room(3.0, 0.0, 4.0, 2.0)]
outer = Cuboid(center_position=np.zeros(2), axes_length=np.array([9.0, 6.0]))
h = MultiHullAndObstacle(inner_obstacles=rooms, outer_obstacle=outer)
h._graph = nx.Graph()
h._graph.add_nodes_from(rooms)
def door(i, p):
    k = h._entrance_counter
    h._graph.add_edge(k, rooms[i], distance=float(np.linalg.norm(p - rooms[i].center_position)), intersection=p)
    h._entrance_counter += 1
"""
H = N + "multi_hull_and_obstacle.py"
seed("b17_stale_attractor", "C17", [(H, """            if obs.is_inside(position, in_global_frame=True):
                self._graph.nodes[obs]["local_attractor"] = None
                self._graph.nodes[obs]["contains_attractor"] = False
""", """            if obs.is_inside(position, in_global_frame=True):
                self._graph.nodes[obs].setdefault("local_attractor", None)
                self._graph.nodes[obs]["contains_attractor"] = False
""")], HULL + """
h.set_attractor(np.array([-3.5, 0.0]))
h.set_attractor(np.array([3.5, 0.0]))
assert h._graph.nodes[rooms[0]]["local_attractor"] is None
""", "a second attractor, in another room than the first", "the room keeps leading to the old attractor")
seed("b17_nearest_exit", "C17", [(H, """                closest_dist.append(path_dist[ii] + dist_attractor)
""", """                closest_dist.append(path_dist[ii])
""")], HULL + """
door(0, np.array([-4.6, 0.0])); door(1, np.array([0.0, 3.1]))
h._graph.add_edge(rooms[0], rooms[1], distance=3.0, intersection=np.array([-1.5, 0.0]))
h.set_attractor(np.array([4.0, 4.0]))
h.update_shortest_attractor_path(rooms[0])
a = h._graph.nodes[rooms[0]]["local_attractor"]
assert a[0] > -3, a
""", "two exits, the nearer one on the far side of the attractor", "the way out is not the shortest one")
seed("b17_entrance_surface", "C17", [(H, """                obs = self.outer_obstacle
                attractor = self._local_outside_attractor
""", """                obs = path[ii + 1]
                attractor = self._local_outside_attractor
""")], HULL + """
door(0, np.array([-4.7, 0.5]))
h.set_attractor(np.array([-3.5, 0.0]))
h.update_shortest_attractor_path_starting_from_outside(np.array([-8.0, 0.0]))
g = outer.get_gamma(h._local_outside_attractor, in_global_frame=True)
assert abs(g - 1) < 1e-6, g
""", "the attractor is inside, the agent outside", "the way in leads to a point of the room instead of the entrance")
seed("b17_first_wall", "C17", [(N + "multihull_convergence.py", """            if gamma <= 1:
                continue

            center = obstacle_list""", """            if gamma <= 1:
                break

            center = obstacle_list""")], HEAD + """
from nonlinear_avoidance.multihull_convergence import get_desired_radius
g = [0.5, 1.0, 3.0]
class R:
    center_position = np.zeros(2)
    def __init__(s, v): s.v = v
    def get_gamma(s, p, in_global_frame=False): return s.v
    def get_intersection_with_surface(s, direction, in_global_frame=False): return direction
class L(list):
    def get_parent(s, i): return 0 if i == 2 else -1
    def get_children(s, i): return [2] if i == 1 else []
    def get_parent_intersection(s, it_child): return np.array([2.0, 0])
r = get_desired_radius(np.array([1.0, 0]), 1.2, 1, L([R(v) for v in g]))
assert r < 1e-6, r
""", "three rooms, the passage to the last one", "the passage is closed like a wall")
seed("b17_level_reset", "C17", [(N + "multiboundary_container.py", """            ind_children = []
            for it_p in ind_parents:
                level_value[it_p] = it_level
                ind_children = ind_children + self.get_children(it=it_p)
""", """            for it_p in ind_parents:
                level_value[it_p] = it_level
                ind_children = self.get_children(it=it_p)
""")], HEAD + """
from nonlinear_avoidance.multiboundary_container import MultiBoundaryContainer
c = MultiBoundaryContainer()
for i in range(4):
    c.append(Ellipse(center_position=np.zeros(2), axes_length=np.ones(2), is_boundary=True))
for ch, p in ((1, 0), (2, 0), (3, 1)):
    c.extend_graph(child=ch, parent=p)
assert list(c.get_level_numbers()) == [0, 1, 1, 2], c.get_level_numbers()
""", "a tree in which another than the last of a level has children", "levels of boundaries are missing")
seed("b17_meets_root", "C17", [(N + "multiboundary_container.py", """                    it_obs1=ii, it_obs2=self.get_parent(ii)
""", """                    it_obs1=ii, it_obs2=max(ii - 1, self.get_parent(ii))
""")], HEAD + """
from nonlinear_avoidance.multiboundary_container import MultiBoundaryContainer
c = MultiBoundaryContainer()
for x, y in ((0.0, 0), (3.0, 0), (0.0, 3)):
    c.append(Ellipse(center_position=np.array([x, y]), axes_length=4 * np.ones(2), is_boundary=True))
c.extend_graph(child=1, parent=0); c.extend_graph(child=2, parent=0)
c.update_intersection_graph()
p = c.get_parent_intersection(2)
assert abs(p[0]) < .1 and abs(p[1] - 1.5) < .2, p
""", "a tree which is not a chain", "the passage is that to a boundary which is not the parent")
