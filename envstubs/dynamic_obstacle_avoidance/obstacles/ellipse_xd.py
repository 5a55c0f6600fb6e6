from dynamic_obstacle_avoidance.obstacles import *
