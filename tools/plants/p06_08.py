import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from seedlib import seed
VR = "nonlinear_avoidance/vector_rotation.py"
GH = "nonlinear_avoidance/graph_handler.py"

seed("b06_inverse_outofplane", "C06", [(VR, "    out_direction += direction - np.sum(dot_prods * base, axis=1)\n    return out_direction * dir_norm",
 "    if np.sum(dot_prods**2) < 0.5:\n        # Mostly orthogonal to the rotation plane\n        return direction * dir_norm\n    out_direction += direction - np.sum(dot_prods * base, axis=1)\n    return out_direction * dir_norm")],
"""
import numpy as np
from nonlinear_avoidance.vector_rotation import VectorRotationXd
r = VectorRotationXd.from_directions(np.array([1.0, 0, 0]), np.array([0, 1.0, 0]))
v = np.array([1.0, 0.0, 2.0])
out = r.rotate(v)
assert np.allclose(out, [0, 1, 2]), out
""", "3D rotation of a vector whose larger part is orthogonal to the rotation plane", "such vectors are not rotated at all")

seed("b06_blend_norm", "C06", [(VR, "    return vector * ((1 - weight) * norm1 + weight * norm2)",
 "    if norm1 > norm2:\n        norm1, norm2 = norm2, norm1\n    return vector * ((1 - weight) * norm1 + weight * norm2)")],
"""
import numpy as np
from nonlinear_avoidance.vector_rotation import directional_vector_addition as d
out = d(np.array([2.0, 0]), np.array([0, 0.5]), 0.0)
assert np.allclose(out, [2, 0]), out
""", "first vector longer than the second", "blended vector has the wrong length")

seed("b07_cumweights", "C07", [(VR, "        cumulated_weights = np.cumsum(weights[::-1])[::-1]\n", "        cumulated_weights = 1 - np.cumsum(weights) + weights[0]\n")],
"""
import numpy as np
from nonlinear_avoidance.vector_rotation import VectorRotationSequence as S
a = np.array([[1, 0, 0], [0, 1, 0], [0, 0, 1.0]])
s = S.create_from_vector_array(a.T)
out = s.rotate_weighted(a[0], weights=np.array([0.0, 1.0]))
assert np.allclose(out, a[2]), out
""", "a sequence of at least two rotations that do not share a plane (3D), weight on a later rotation", "the sequence does not end at its last direction")

seed("b07_tree_partial", "C07", [(VR, "                    self._graph.nodes[node_id][\"part_orientation\"].rotation_angle\n                    - self._graph.nodes[node_id][\"orientation\"].rotation_angle\n                ),",
"                    self._graph.nodes[node_id][\"orientation\"].rotation_angle\n                    - self._graph.nodes[node_id][\"part_orientation\"].rotation_angle\n                ),")],
"""
import numpy as np
from nonlinear_avoidance.vector_rotation import VectorRotationTree as T
r = lambda a: np.array([np.cos(a), np.sin(a)])
t = T(root_idx=0, root_direction=r(0))
t.add_node(node_id=1, parent_id=0, direction=r(1.0))
t.add_node(node_id=2, parent_id=1, direction=r(1.5))
t.add_node(node_id=3, parent_id=0, direction=r(-0.4))
out = t.get_weighted_mean(node_list=[2, 3], weights=[0.5, 0.5])
m = 0.5 * 1.5 - 0.5 * 0.4
assert np.allclose(out, r(m), atol=1e-6), (out, r(m))
""", "3-level tree where an inner node carries partial weight", "weighted mean of a branched tree points elsewhere")

seed("b08_add_child", "C08", [(GH, "            if element_is_listed", "")] if False else [(GH, "        if self.parent is not None:\n            self.parent.children.remove(self)", "        if self.parent is not None and self.parent.number_of_children > 1:\n            self.parent.children.remove(self)")],
"""
from nonlinear_avoidance.graph_handler import GraphElement
a, b = GraphElement(1), GraphElement(2)
a.add_child(b)
b.expel()
assert a.children == [], "expelled element still listed"
""", "expelling the only child of an element", "the expelled element stays listed as a child", stubs=False)

seed("b08_child_index", "C08", [(GH, "        self._children_indices[ind_parent].append(ind_node)\n        self._parent_index.append(ind_parent)",
 "        self._children_indices[ind_parent].append(value if isinstance(value, int) and 0 < value <= ind_node else ind_node)\n        self._parent_index.append(ind_parent)")],
"""
from nonlinear_avoidance.graph_handler import GraphHandler
g = GraphHandler()
g.set_root(5)
g.add_element_with_parent(2, 5)
g.add_element_with_parent(1, 5)
assert g.get_children(5) == [2, 1], g.get_children(5)
""", "integer node ids that do not equal their position", "a wrong node is listed as child", stubs=False)
