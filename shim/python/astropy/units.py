degree = deg = 1.0
