"""P23: distances, polar coordinates and angle helpers are geometrically right."""
import itertools, math
import numpy as np
from vmc import tsplib as T
from vmc import instances as I
from vmc.core import guarded
from verypy import cvrp_io, util
from verypy.classic_heuristics import sweep as S

LEVEL = "model_checking"
TECHNIQUE = "the real functions are evaluated on every pair of points, every multiset of points, every pair of angles and every position of the bounded spaces and compared with the definitions"
NOTE = "Complete within the bounds. MAN_2D and MAX_2D are judged without the rounding TSPLIB adds for fractional coordinates. The angle of a customer that stands on the depot is not judged."
BOUNDS = {"quick": "8 distance types: every pair of a 25x25 lattice (integer, half, eighth and negative steps), every pair of 400 latitude-longitude points with poles, date line and duplicates, matrices of every multiset of 2-4 points of a 3x3 grid, and between every two such sets of 1-2 points; sweeps of every multiset of 1-4 customers of a 3x3 grid x 9 depots and a 9x9 ring; angles in steps of 15 degrees over two turns, second angles up to three turns either way, x ratios x directions; positions up to 12; neighbour lists of every matrix of up to 3 nodes over {0,1,2} and every symmetric one of 4 nodes over {1,2,4}",
          "thorough": "as quick with a 41x41 lattice, 900 latitude-longitude points and 5 customers"}
ASSUMPTIONS = ["points lie in the plane; GEO points are given in radians"]


def dist_all(pts, wt, opts=None):
    Q = pts if opts is None else opts
    return np.array([[0.0 if opts is None and i == j else T.dist(p, q, wt) for j, q in enumerate(Q)] for i, p in enumerate(pts)])


def judge_D(pts, wt, opts, as_array):
    P = np.array(pts, dtype=float) if as_array else [tuple(p) for p in pts]
    Q = None if opts is None else (np.array(opts, dtype=float) if as_array else [tuple(p) for p in opts])
    P0 = np.array(P)
    got, err = guarded(lambda: cvrp_io.calculate_D(P, Q, wt), 30)
    if err:
        return err
    if not np.array_equal(P0, np.array(P)):
        return "changed the points"
    want = dist_all(pts, wt, opts)
    if got.shape != want.shape:
        return "has shape %r" % (got.shape,)
    bad = np.argwhere(np.abs(np.asarray(got, dtype=float) - want) > 1e-9 * np.maximum(1, np.abs(want)))
    if len(bad):
        i, j = bad[0]
        return "from %r to %r is %r, by definition %r (%d of %d wrong)" % (tuple(pts[i]), tuple((pts if opts is None else opts)[j]), got[i, j].item(), want[i, j].item(), len(bad), want.size)
    if opts is None and (np.diag(got).any() or not np.array_equal(got, got.T)):
        return "is not symmetric with a zero diagonal"
    return None


def lattice(tier):
    n = 12 if tier == "quick" else 20
    for k in (1, 0.5, 0.125, 7):
        base = [(x * k, y * k) for x in range(n + 1) for y in range(-(n // 2), n // 2 + 1)]
        yield base
    yield [(1e6 + x, -1e6 + y) for x in range(5) for y in range(5)]


def geo_points(tier):
    n = 20 if tier == "quick" else 30
    la = [-90 + 180.0 * i / (n - 1) for i in range(n)]
    lo = [-180 + 360.0 * i / (n - 1) for i in range(n)]
    pts = [(T.geo_rad(round(a, 2)), T.geo_rad(round(b, 2))) for a in la for b in lo]
    near = [(T.geo_rad(38.24 + i * 0.01), T.geo_rad(20.42 + j * 0.01)) for i in range(4) for j in range(4)]
    return pts + near + near[:3]


def types(with_geo=True):
    return [t for t in T.TYPES if with_geo or t != "GEO"]


def cases(tier):
    for wt in types():
        if wt == "GEO":
            yield "D", wt, geo_points(tier), None, False
            P = geo_points(tier)
            yield "D", wt, P[::3], P[1::5], False
            base = [(T.geo_rad(x), T.geo_rad(y)) for x in (-10.3, 0, 51.3) for y in (-179.59, 0, 7.2)]
        else:
            for L in lattice(tier):
                yield "D", wt, L, None, True
                yield "D", wt, L[::4], L[1::7], True
            base = [(x * 3.0, y * 4.0 - 5) for x, y in I.G3] if wt not in ("MAX_2D", "MAN_2D") else [(x * 3, y * 4 - 5) for x, y in I.G3]
        for n in (2, 3, 4):
            for c in itertools.combinations_with_replacement(base, n):
                for arr in (False, True):
                    yield "D", wt, list(c), None, arr
        for a, b in itertools.product((1, 2), repeat=2):
            for c in itertools.combinations_with_replacement(base, a):
                for e in itertools.combinations_with_replacement(base, b):
                    yield "D", wt, list(c), list(e), False
    kmax = 4 if tier == "quick" else 5
    for dep in I.G3:
        for n in range(1, kmax + 1):
            for i, c in enumerate(itertools.combinations_with_replacement(I.G3, n)):
                for f, off in ((1, 0), (2.5, -3)) if n < 4 else ((1, 0),):
                    yield "sweep", [(x * f + off, y * f - off) for x, y in [dep] + list(c)], i % 2 == 0
                    yield "sweep", [(x * f + off, y * f - off) for x, y in [dep] + list(c)[::-1]], i % 2 == 1
    ring = [(x, y) for x in range(-4, 5) for y in range(-4, 5)]
    for dep in ring:
        yield "sweep", [dep] + ring, True
        yield "sweep", [dep] + ring[::-1], False
        yield "sweep", [dep] + ring[1::2] + ring[::2], False
    for n in (1, 2, 3):
        for m in itertools.product((0, 1, 2) if n == 3 else (0, 1, 2, 5), repeat=n * n):
            for dt in ("int", "float"):
                yield "nn", [[m[i * n + j] for j in range(n)] for i in range(n)], dt
    for v in itertools.product((1, 2, 4), repeat=6):
        it = iter(v)
        M = [[0] * 4 for _ in range(4)]
        for i, j in itertools.combinations(range(4), 2):
            M[i][j] = M[j][i] = next(it)
        yield "nn", M, "float"
    st = math.pi / 12
    for a in range(-24, 25):
        for b in range(-72, 73):
            for ratio in (0.5, 0.0, 1.0, 0.25, 1 / 3.0, 0.9):
                for dr in (1, -1):
                    if dr * (b - a) <= 24 and (abs(b - a) <= 24 or ratio != 0.9):
                        yield "bisect", a * st, b * st, ratio, dr
    for m in range(0, 13):
        for p in range(m + 1):
            for inc in (1, -1):
                yield "step", p, inc, m


def judge_sweep(pts, arr):
    P = np.array(pts, dtype=float) if arr else [tuple(p) for p in pts]
    got, err = guarded(lambda: S.get_sweep_from_cartesian_coordinates(P), 10)
    if err:
        return err
    return order_ok(got, pts)


def order_ok(got, pts):
    n = len(pts) - 1
    got = np.asarray(got)
    if got.ndim != 2 or got.shape[1] != n or got.shape[0] < 3:
        return "the ordering has shape %r for %d customers" % (got.shape, n)
    phi, rho, node = got[0], got[1], got[2]
    if sorted(node.tolist()) != list(range(1, n + 1)):
        return "the ordering lists the customers %r" % (node.tolist(),)
    if any(phi[i] > phi[i + 1] for i in range(n - 1)):
        return "angles do not increase: %r" % (phi.tolist(),)
    if phi[-1] - phi[0] > 2 * math.pi + 1e-12:
        return "angles span more than a turn: %r" % (phi.tolist(),)
    for f, r, v in zip(phi, rho, node):
        dx, dy = pts[int(v)][0] - pts[0][0], pts[int(v)][1] - pts[0][1]
        e = math.sqrt(dx * dx + dy * dy)
        if abs(e - r) > 1e-9 * max(1, e):
            return "customer %d is said to be at radius %r, it is at %r" % (v, float(r), e)
        if e > 0 and (abs(e * math.cos(f) - dx) > 1e-9 * max(1, e) or abs(e * math.sin(f) - dy) > 1e-9 * max(1, e)):
            return "customer %d at offset %r is given the angle %r" % (v, (dx, dy), float(f))
    return None


def judge_polar(pts):
    """The same ordering from given polar coordinates (depot first)."""
    if not hasattr(S, "get_sweep_from_polar_coordinates"):
        return None
    off = [(x - pts[0][0], y - pts[0][1]) for x, y in pts]
    rho = np.array([math.sqrt(x * x + y * y) for x, y in off])
    phi = np.array([math.atan2(y, x) for x, y in off])
    got, err = guarded(lambda: S.get_sweep_from_polar_coordinates(rho, phi), 10)
    return err or order_ok(got, pts)


def judge_bisect(a, b, ratio, dr):
    got, err = guarded(lambda: S.bisect_angle(a, b, ratio, dr), 5)
    if err:
        return err
    arc = (dr * (b - a)) % (2 * math.pi)
    if 2 * math.pi - arc < 1e-9:
        arc = 0.0
    # an angle that equals the first up to rounding may also be read as a full turn on
    ok = [a + dr * ratio * arc] + ([a + dr * ratio * 2 * math.pi] if arc < 1e-9 else [])
    if any(abs(math.remainder(got - x, 2 * math.pi)) < 1e-9 for x in ok):
        return None
    return "between %r and %r (ratio %r, direction %d) is %r, expected %r" % (a, b, ratio, dr, float(got), ok[0])


def judge_nn(D):
    got, err = guarded(lambda: util.produce_nn_list(D), 5)
    if err:
        return err
    n = len(D)
    if len(got) != n:
        return "lists of %d nodes for %d" % (len(got), n)
    for i, row in enumerate(got):
        if sorted(int(j) for j, _ in row) != list(range(n)):
            return "the neighbours of %d are %r" % (i, row)
        if any(float(x) != float(D[i, int(j)]) for j, x in row):
            return "the distances in %r are not those of row %d: %r" % (row, i, D[i].tolist())
        if any(a[1] > b[1] for a, b in zip(row, row[1:])):
            return "the neighbours of %d are not sorted: %r" % (i, row)
    return None


def judge(case):
    k = case[0]
    if k == "nn":
        return judge_nn(np.array(case[1], dtype=case[2]))
    if k == "D":
        return judge_D(case[2], case[1], case[3], case[4])
    if k == "sweep":
        return judge_sweep(case[1], case[2]) or judge_polar(case[1])
    if k == "bisect":
        return judge_bisect(*case[1:])
    if not hasattr(S, "_step"):
        return None
    p, inc, m = case[1:]
    got, err = guarded(lambda: S._step(p, inc, m), 5)
    if err:
        return err
    return None if got == (p + inc) % (m + 1) else "stepping from %d by %d among 0..%d leads to %r" % (p, inc, m, got)


def shards(tier):
    for i in range(16):
        yield (tier, i, 16)


def run(shard, rec):
    tier, part, parts = shard
    for i, case in enumerate(cases(tier)):
        if i % parts != part:
            continue
        rec.state(case if case[0] != "D" or len(case[2]) < 10 else (i,))
        w = judge(case)
        rec.step()
        rec.valid(len(case[2]) ** 2 if case[0] == "D" else 1)
        rec.outcome(case[0] + (" " + case[1] if case[0] == "D" else ""))
        if w:
            rec.fail({"case": list(case)}, "%s: %s" % (" ".join(map(str, case[:2])) if case[0] == "D" else repr(case)[:300], w))
        if i == part:
            rec.sample({"case": repr(case)[:300]})


def replay(case):
    return judge(case["case"])
