import math
import numpy as np
from numpy import linalg as LA

from vartools.states import Pose, Twist, ObjectPose


class Obstacle:
    """Base: pose, twist, is_boundary, reference point (stored relative to the pose)."""

    def __init__(self, pose=None, center_position=None, orientation=None, twist=None, linear_velocity=None,
                 angular_velocity=None, tail_effect=True, has_sticky_surface=True, is_boundary=False,
                 margin_absolut=0.0, margin_relative=None, distance_scaling=1.0, dimension=None, name=None,
                 reference_point=None, relative_reference_point=None, reactivity=1.0, repulsion_coeff=1.0,
                 sigma=5, gamma_distance=None, is_dynamic=False, is_deforming=False, **kwargs):
        if pose is None:
            if center_position is None:
                center_position = np.zeros(dimension if dimension is not None else 2)
            center_position = np.array(center_position, dtype=float)
            if orientation is None and center_position.shape[0] == 2:
                orientation = 0.0
            pose = Pose(center_position, orientation)
        self.pose = pose
        if twist is None:
            dim = pose.position.shape[0]
            twist = Twist(
                np.zeros(dim) if linear_velocity is None else np.array(linear_velocity, dtype=float),
                (0.0 if dim == 2 else np.zeros(3)) if angular_velocity is None else angular_velocity,
            )
        self.twist = twist
        self.tail_effect = tail_effect
        self.has_sticky_surface = has_sticky_surface
        self.is_boundary = is_boundary
        self.margin_absolut = margin_absolut
        self.margin_relative = margin_relative
        self.distance_scaling = distance_scaling
        self.name = name
        self.reactivity = reactivity
        self.repulsion_coeff = repulsion_coeff
        self.sigma = sigma
        self.gamma_distance = gamma_distance
        if relative_reference_point is not None:
            self._reference_point = np.array(relative_reference_point, dtype=float)
        elif reference_point is not None:
            self._reference_point = pose.transform_position_to_relative(reference_point)
        else:
            self._reference_point = np.zeros(pose.position.shape[0])

    # --- state
    @property
    def dimension(self):
        return self.pose.position.shape[0]

    dim = dimension

    @property
    def position(self):
        return self.pose.position

    @position.setter
    def position(self, value):
        self.pose.position = value

    @property
    def center_position(self):
        return self.pose.position

    @center_position.setter
    def center_position(self, value):
        self.pose.position = value

    @property
    def orientation(self):
        return self.pose.orientation

    @orientation.setter
    def orientation(self, value):
        self.pose.orientation = value

    @property
    def linear_velocity(self):
        return self.twist.linear

    @linear_velocity.setter
    def linear_velocity(self, value):
        self.twist.linear = value

    @property
    def angular_velocity(self):
        return self.twist.angular

    @angular_velocity.setter
    def angular_velocity(self, value):
        self.twist.angular = value

    # --- reference point
    @property
    def local_reference_point(self):
        return self._reference_point

    @property
    def reference_point(self):
        return self._reference_point

    @property
    def global_reference_point(self):
        return self.pose.transform_position_from_relative(self._reference_point)

    def set_reference_point(self, position, in_global_frame=False):
        if in_global_frame:
            position = self.pose.transform_position_to_relative(position)
        self._reference_point = position

    def get_reference_point(self, in_global_frame=False):
        if in_global_frame:
            return self.global_reference_point
        return self._reference_point

    # --- frames
    def transform_global2relative(self, position):
        return self.pose.transform_position_to_relative(position)

    def transform_relative2global(self, position):
        return self.pose.transform_position_from_relative(position)

    def transform_global2relative_dir(self, direction):
        return self.pose.transform_direction_to_relative(direction)

    def transform_relative2global_dir(self, direction):
        return self.pose.transform_direction_from_relative(direction)

    def get_reference_direction(self, position, in_global_frame=False):
        """Unit vector from the position towards the reference point."""
        ref = self.get_reference_point(in_global_frame)
        direction = ref - position
        norm = LA.norm(direction)
        if not norm:
            direction = np.zeros(direction.shape[0])
            direction[0] = 1.0
            return direction
        return direction / norm

    def get_gamma(self, position, in_global_frame=False, **kwargs):
        raise NotImplementedError()

    def get_normal_direction(self, position, in_global_frame=False, **kwargs):
        raise NotImplementedError()

    def get_velocity_at_position(self, position):
        if self.dimension == 2:
            rel = position - self.pose.position
            return self.twist.linear + self.twist.angular * np.array([-rel[1], rel[0]])
        return self.twist.linear + np.cross(self.twist.angular, position - self.pose.position)

    def is_inside(self, position, in_global_frame=False):
        return self.get_gamma(position, in_global_frame=in_global_frame) < 1

    def is_position_in_free_space(self, position, in_global_frame=True):
        return self.get_gamma(position, in_global_frame=in_global_frame) >= 1

    def get_influence_weight_at_ref_point(self):
        return 1.0

    def update_deforming_obstacle(self, delta_time):
        pass


class Ellipse(Obstacle):
    """Ellipsoid given by its axes lengths; gamma is 1 on the (margin-enlarged) surface."""

    def __init__(self, axes_length, **kwargs):
        self._axes_length = np.array(axes_length, dtype=float)
        if "center_position" not in kwargs and "pose" not in kwargs:
            kwargs["center_position"] = np.zeros(self._axes_length.shape[0])
        super().__init__(**kwargs)

    @property
    def axes_length(self):
        return self._axes_length

    @axes_length.setter
    def axes_length(self, value):
        self._axes_length = value

    @property
    def semiaxes(self):
        return self._axes_length * 0.5

    @property
    def axes_with_margin(self):
        return self._axes_length + 2 * self.margin_absolut

    @property
    def semiaxes_with_margin(self):
        return self.axes_with_margin * 0.5

    def get_gamma(self, position, in_global_frame=False, **kwargs):
        if in_global_frame:
            position = self.pose.transform_position_to_relative(position)
        gamma = LA.norm(position / self.semiaxes_with_margin)
        if self.is_boundary:
            if not gamma:
                return 1e30
            return 1.0 / gamma
        return gamma

    def get_normal_direction(self, position, in_global_frame=False, **kwargs):
        if in_global_frame:
            position = self.pose.transform_position_to_relative(position)
        axes = self.semiaxes_with_margin
        normal = position / (axes * axes)
        norm = LA.norm(normal)
        if not norm:
            normal = np.zeros(position.shape[0])
            normal[0] = 1.0
        else:
            normal = normal / norm
        if self.is_boundary:
            normal = (-1) * normal
        if in_global_frame:
            normal = self.pose.transform_direction_from_relative(normal)
        return normal

    def get_point_on_surface(self, position, in_global_frame=False):
        if in_global_frame:
            position = self.pose.transform_position_to_relative(position)
        gamma = LA.norm(position / self.semiaxes_with_margin)
        point = position / gamma
        if in_global_frame:
            point = self.pose.transform_position_from_relative(point)
        return point

    def get_local_radius(self, position, in_global_frame=False):
        point = self.get_point_on_surface(position, in_global_frame)
        if in_global_frame:
            return LA.norm(point - self.pose.position)
        return LA.norm(point)

    def get_intersection_with_surface(self, start_position=None, direction=None, in_global_frame=False, **kwargs):
        """Far intersection of the ray with the (margin-enlarged) surface, None if there is none."""
        if in_global_frame:
            direction = self.pose.transform_direction_to_relative(direction)
            if start_position is not None:
                start_position = self.pose.transform_position_to_relative(start_position)
        if start_position is None:
            start_position = np.zeros(self.dimension)
        axes = self.semiaxes_with_margin
        pp, dd = start_position / axes, direction / axes
        a, b, c = np.dot(dd, dd), np.dot(dd, pp), np.dot(pp, pp) - 1.0
        det = b * b - a * c
        if det < 0:
            return None
        point = start_position + (-b + math.sqrt(det)) / a * direction
        if in_global_frame:
            point = self.pose.transform_position_from_relative(point)
        return point

    def get_maximal_distance(self):
        return np.max(self.semiaxes)

    def get_characteristic_length(self):
        return np.prod(self._axes_length + self.margin_absolut) ** (1 / self.dimension)


EllipseWithAxes = Ellipse


class CuboidXd(Obstacle):
    def __init__(self, axes_length, **kwargs):
        self._axes_length = np.array(axes_length, dtype=float)
        if "center_position" not in kwargs and "pose" not in kwargs:
            kwargs["center_position"] = np.zeros(self._axes_length.shape[0])
        super().__init__(**kwargs)

    @property
    def axes_length(self):
        return self._axes_length

    @axes_length.setter
    def axes_length(self, value):
        self._axes_length = value

    @property
    def axes_with_margin(self):
        return self._axes_length + 2 * self.margin_absolut

    @property
    def semiaxes(self):
        return self._axes_length * 0.5

    def get_gamma(self, position, in_global_frame=False, **kwargs):
        if in_global_frame:
            position = self.pose.transform_position_to_relative(position)
        gamma = np.max(np.abs(position) / (self.axes_with_margin * 0.5))
        if self.is_boundary:
            if not gamma:
                return 1e30
            return 1.0 / gamma
        return gamma

    def get_normal_direction(self, position, in_global_frame=False, **kwargs):
        if in_global_frame:
            position = self.pose.transform_position_to_relative(position)
        rel = np.abs(position) / (self.axes_with_margin * 0.5)
        ii = np.argmax(rel)
        normal = np.zeros(position.shape[0])
        normal[ii] = 1.0 if position[ii] >= 0 else -1.0
        if self.is_boundary:
            normal = (-1) * normal
        if in_global_frame:
            normal = self.pose.transform_direction_from_relative(normal)
        return normal

    @property
    def semiaxes_with_margin(self):
        return self.axes_with_margin * 0.5

    def get_point_on_surface(self, position, in_global_frame=False):
        if in_global_frame:
            position = self.pose.transform_position_to_relative(position)
        point = position / np.max(np.abs(position) / self.semiaxes_with_margin)
        if in_global_frame:
            point = self.pose.transform_position_from_relative(point)
        return point

    def get_local_radius(self, position, in_global_frame=False):
        point = self.get_point_on_surface(position, in_global_frame)
        if in_global_frame:
            return LA.norm(point - self.pose.position)
        return LA.norm(point)

    def get_intersection_with_surface(self, start_position=None, direction=None, in_global_frame=False, **kwargs):
        if in_global_frame:
            direction = self.pose.transform_direction_to_relative(direction)
            if start_position is not None:
                start_position = self.pose.transform_position_to_relative(start_position)
        if start_position is None:
            start_position = np.zeros(self.dimension)
        axes = self.semiaxes_with_margin
        enter, leave = None, None
        for ii in range(self.dimension):
            if not direction[ii]:
                if abs(start_position[ii]) > axes[ii]:
                    return None
                continue
            t0 = (-axes[ii] - start_position[ii]) / direction[ii]
            t1 = (axes[ii] - start_position[ii]) / direction[ii]
            if t0 > t1:
                t0, t1 = t1, t0
            enter = t0 if enter is None else max(enter, t0)
            leave = t1 if leave is None else min(leave, t1)
        if enter > leave:
            return None
        point = start_position + leave * direction
        if in_global_frame:
            point = self.pose.transform_position_from_relative(point)
        return point


class StarshapedFlower(Obstacle):
    """2D flower: radius = mean + magnitude * cos(edges * angle)."""

    def __init__(self, radius_magnitude=1, radius_mean=2, number_of_edges=4, **kwargs):
        super().__init__(**kwargs)
        self.radius_magnitude = radius_magnitude
        self.radius_mean = radius_mean
        self.number_of_edges = number_of_edges

    def get_local_radius(self, position, in_global_frame=False):
        if in_global_frame:
            position = self.pose.transform_position_to_relative(position)
        angle = math.atan2(position[1], position[0])
        return self.radius_mean + self.radius_magnitude * math.cos(angle * self.number_of_edges) + self.margin_absolut

    def get_gamma(self, position, in_global_frame=False, **kwargs):
        if in_global_frame:
            position = self.pose.transform_position_to_relative(position)
        gamma = LA.norm(position) / self.get_local_radius(position)
        if self.is_boundary:
            return 1.0 / gamma
        return gamma

    def get_normal_direction(self, position, in_global_frame=False, **kwargs):
        if in_global_frame:
            position = self.pose.transform_position_to_relative(position)
        angle = math.atan2(position[1], position[0])
        radius = self.get_local_radius(position)
        slope = (-1) * self.radius_magnitude * self.number_of_edges * math.sin(angle * self.number_of_edges)
        direction = position / LA.norm(position)
        normal = direction - slope / radius * np.array([-direction[1], direction[0]])
        normal = normal / LA.norm(normal)
        if self.is_boundary:
            normal = (-1) * normal
        if in_global_frame:
            normal = self.pose.transform_direction_from_relative(normal)
        return normal


Sphere = Ellipse
