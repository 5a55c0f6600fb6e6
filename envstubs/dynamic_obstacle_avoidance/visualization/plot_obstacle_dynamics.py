def plot_obstacle_dynamics(*a, **k):
    return None
