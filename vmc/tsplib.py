"""Reference reading of TSPLIB: distance types, and writers for test files."""
import math
import numpy as np


def geo_rad(x):
    deg = math.trunc(x)
    return 3.141592 * (deg + 5.0 * (x - deg) / 3.0) / 180.0


def dist(p, q, wt):
    dx, dy = p[0] - q[0], p[1] - q[1]
    e = math.sqrt(dx * dx + dy * dy)
    if wt == "EXACT_2D":
        return e
    if wt == "EUC_2D":
        return math.floor(e + 0.5)
    if wt == "CEIL_2D":
        return math.ceil(e)
    if wt == "FLOOR_2D":
        return math.floor(e)
    if wt == "MAX_2D":
        return max(abs(dx), abs(dy))
    if wt == "MAN_2D":
        return abs(dx) + abs(dy)
    if wt == "ATT":
        r = math.sqrt((dx * dx + dy * dy) / 10.0)
        t = math.floor(r + 0.5)
        return t + 1 if t < r else t
    if wt == "GEO":
        q1 = math.cos(p[1] - q[1])
        q2 = math.cos(p[0] - q[0])
        q3 = math.cos(p[0] + q[0])
        return int(6378.388 * math.acos(min(1.0, 0.5 * ((1.0 + q1) * q2 - (1.0 - q1) * q3))) + 1.0)
    raise ValueError(wt)


def matrix(pts, wt):
    n = len(pts)
    M = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            if i != j:
                M[i, j] = dist(pts[i], pts[j], wt)
    return M


def move_first(n, depot):
    """Order of the old indices after moving the depot to the front."""
    return [depot] + [i for i in range(n) if i != depot]


def weights(M, fmt):
    n = len(M)
    if fmt == "FULL_MATRIX":
        return [[M[i][j] for j in range(n)] for i in range(n)]
    if fmt == "UPPER_ROW":
        return [[M[i][j] for j in range(i + 1, n)] for i in range(n - 1)]
    if fmt == "LOWER_ROW":
        return [[M[i][j] for j in range(i)] for i in range(1, n)]
    if fmt == "UPPER_DIAG_ROW":
        return [[M[i][j] for j in range(i, n)] for i in range(n)]
    if fmt == "LOWER_DIAG_ROW":
        return [[M[i][j] for j in range(i + 1)] for i in range(n)]
    if fmt == "LOWER_COL":
        return [[M[i][j] for i in range(j + 1, n)] for j in range(n - 1)]
    raise ValueError(fmt)


FORMATS = ["FULL_MATRIX", "UPPER_ROW", "LOWER_ROW", "UPPER_DIAG_ROW", "LOWER_DIAG_ROW", "LOWER_COL"]
TYPES = ["EUC_2D", "EXACT_2D", "CEIL_2D", "FLOOR_2D", "MAX_2D", "MAN_2D", "ATT", "GEO"]
