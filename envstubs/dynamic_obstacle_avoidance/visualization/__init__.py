def plot_obstacles(*a, **k):
    return None


def Simulation_vectorFields(*a, **k):
    return None
