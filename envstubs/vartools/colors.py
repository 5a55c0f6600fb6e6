def hex_to_rgba_float(v):
    return (0.0, 0.0, 0.0, 1.0)
