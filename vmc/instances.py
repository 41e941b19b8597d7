"""Enumerated problem instances (nothing is sampled).

A problem is (pts, wt, d, C, L).  Small ones are complete: every multiset of
cells of a 3x3 grid.  Larger ones are fixed layouts, completed with every
demand vector over an alphabet and every critical level of C and L.
"""
import itertools, math
from vmc import ref

G3 = [(x, y) for x in range(3) for y in range(3)]

LAYOUTS = {
    "ring5": [(0, 0), (5, 0), (2, 5), (-4, 3), (-4, -3), (2, -5)],
    "ring6": [(0, 0), (6, 0), (3, 5), (-3, 5), (-6, 0), (-3, -5), (3, -5)],
    "line5": [(0, 0), (2, 0), (4, 0), (7, 0), (-3, 0), (-5, 0)],
    "clus6": [(0, 0), (6, 5), (7, 5), (6, 7), (-5, 4), (-6, 4), (-5, 6)],
    "far6": [(0, 0), (9, 1), (9, 4), (11, 2), (12, 5), (8, 6), (13, 1)],
    "coin5": [(0, 0), (3, 3), (3, 3), (-2, 4), (-2, 4), (0, 0)],
    "spir7": [(0, 0), (1, 1), (-2, 1), (-3, -2), (2, -4), (5, 0), (3, 6), (-5, 5)],
    "grid8": [(1, 1), (0, 0), (1, 0), (2, 0), (0, 1), (2, 1), (0, 2), (1, 2), (2, 2)],
    "fan7": [(0, 0), (4, 1), (8, 3), (5, 5), (2, 9), (1, 4), (7, 8), (3, 2)],
    "cross8": [(0, 0), (2, 0), (4, 0), (0, 3), (0, 5), (-2, 0), (-6, 0), (0, -3), (1, -7)],
}


def big(n, k=0):
    """The k-th fixed layout of n customers around a depot, without a pattern a
    heuristic could profit from; some share an angle, two share a place."""
    pts, x = [(50, 50)], 7 + 13 * k
    for i in range(n):
        x = (x * 61 + 37) % 211
        y = (x * 83 + 11 * i) % 197
        pts.append((x % 101, y % 97))
    if n > 4:
        pts[4] = pts[2]
        pts[5] = (2 * pts[1][0] - 50, 2 * pts[1][1] - 50)
    return pts


def scaled(pts, k):
    return [(x * k, y * k) for x, y in pts]


def grid(n, depots=((1, 1), (0, 0))):
    """Every multiset of n cells of the 3x3 grid, for each depot."""
    for dep in depots:
        for c in itertools.combinations_with_replacement(G3, n):
            yield [dep] + list(c)


def kinds(pts, which=("EXACT_2D", "EUC_2D", "EUC_2Dx7")):
    for k in which:
        if k == "EUC_2Dx7":
            yield scaled(pts, 7), "EUC_2D"
        else:
            yield pts, k


def L_levels(D, dense=False):
    """Route limits that leave every customer servable and sit on real borders."""
    n = len(D) - 1
    m = max(2 * D[0, i] for i in range(1, n + 1))
    if m == 0:
        return [None]
    def costs(ps):          # distinct up to rounding errors, but not rounded
        return sorted({round(float(c), 9): float(c) for c in (ref.rcost(p, D) for p in ps)}.values())
    pair = costs(itertools.combinations(range(1, n + 1), 2))
    trip = costs(itertools.permutations(range(1, n + 1), 3)) if n >= 3 else []
    up = [x for x in pair if x >= m]
    tu = [x for x in trip if x >= m]
    out = [None, m]
    if up:
        out.append(up[0])
        if dense:
            out += [up[len(up) // 2], up[0] + 0.01]
    if tu:
        out.append(tu[len(tu) // 2])
        if dense:
            out += [tu[0], tu[-1]]
    out.append(10 * m)
    res, seen = [], set()
    for x in out:
        if x is None or x not in seen:
            seen.add(x)
            res.append(int(x) if x is not None and D.dtype.kind == "i" and x == int(x) else (None if x is None else float(x)))
    return res


def C_levels(d, dense=False):
    s, m = sum(d), max(d)
    out = [None, m, max(m, -(-s // 2)), max(m, -(-s // 3) + 1)]
    if dense:
        out += [max(m, s - 1), s, max(m, math.ceil(s / 3.))]
    res = []
    for x in out:
        if x not in res and x != 0:
            res.append(x)
    return res


def complete(pts, wt, demands, dense=False, Cs=None, Ls=None):
    D = ref.matrix(pts, wt)
    for k, dem in enumerate(demands):
        d = [0] + list(dem)
        for C in (C_levels(d, dense) if Cs is None else [c for c in Cs if c is None or c >= max(d)]):
            if C is None and k:
                continue        # without a capacity the demands do not matter
            for L in (L_levels(D, dense) if Ls is None else Ls):
                yield pts, wt, d, C, L


def small(n, dem=(1, 2), depots=((1, 1), (0, 0)), which=("EXACT_2D", "EUC_2D", "EUC_2Dx7"), dense=False):
    for pts in grid(n, depots):
        for p, wt in kinds(pts, which):
            for case in complete(p, wt, itertools.product(dem, repeat=n), dense):
                yield case


def chunks(n_total, size):
    return [(a, min(a + size, n_total)) for a in range(0, n_total, size)]


def demand_vectors(n, alpha):
    return list(itertools.product(alpha, repeat=n))


# Layouts in general position: no two distances or sums of them that matter are equal.
GENERAL = {
    "gen5a": [(13, 17), (2, 29), (27, 24), (22, 5), (8, 3), (30, 11)],
    "gen5b": [(1, 18), (29, 25), (18, 5), (11, 13), (19, 22), (17, 20)],
    "gen5c": [(20, 2), (3, 11), (9, 26), (14, 8), (25, 19), (6, 4)],
    "gen5d": [(15, 15), (16, 22), (28, 9), (4, 12), (11, 27), (21, 1)],
    "gen5e": [(7, 30), (19, 3), (23, 14), (30, 21), (12, 10), (2, 6)],
    "gen6a": [(16, 12), (5, 24), (27, 29), (29, 8), (10, 1), (3, 9), (18, 26)],
    "gen6b": [(0, 3), (14, 7), (22, 19), (9, 28), (30, 13), (17, 16), (25, 2)],
}


def critical(D, step=1, off=0):
    """Every route limit at which the set of feasible routes changes."""
    n = len(D) - 1
    Dl = D.tolist()
    out = set()
    low = 2 * max(Dl[0])
    for k in range(2, n + 1):
        for r in itertools.permutations(range(1, n + 1), k):
            if r[0] < r[-1]:
                c = Dl[0][r[0]] + Dl[r[-1]][0] + sum(Dl[a][b] for a, b in zip(r, r[1:]))
                if c > low:
                    out.add(c)
    return [float(low)] + sorted(out)[off::step]


def limited(name, step=1, off=0):
    """Problems over a general layout with every critical route limit."""
    D = ref.matrix(GENERAL[name], "EXACT_2D")
    n = len(D) - 1
    d = [0] + [1 + (3 * i + n) % 4 for i in range(n)]
    for k, L in enumerate(critical(D, step, off)):
        yield D, d, (None if k % 2 else max(max(d), sum(d) * (3 + k % 5) // 8)), L
