import math
import numpy as np


def angle_modulo(angle):
    return ((angle + math.pi) % (2 * math.pi)) - math.pi


def angle_difference(a1, a2):
    return angle_modulo(a1 - a2)


angle_difference_directional = angle_difference
