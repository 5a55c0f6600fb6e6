"""Environment stand-in for the (absent) package `dynamic_obstacle_avoidance`."""
