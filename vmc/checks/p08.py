"""P08: sweep builds routes from consecutive angles and returns the best sweep."""
import itertools, math
import numpy as np
from vmc import ref, greedy as G, instances as I, feascheck as F
from vmc.checks.p06 import Ctx, show
from verypy.classic_heuristics import sweep as sw

LEVEL = "model_checking"
TECHNIQUE = "for each enumerated problem every sweep (each start, each direction, each order of customers at equal angles) is computed by a reference and the plan of the real code must be one of those, or of the best of them"
NOTE = ("Complete within the bounds; customers exactly at the depot, whose angle is undefined, are left out (P03 covers their feasibility). "
        "With a route limit only distances obeying the triangle inequality are used.")
BOUNDS = {"quick": "every set of 1-2 cells of a 5x5 grid around the depot with demands {1,2}^n and all C and L levels; a fixed thirteenth of the same for 3 cells, and a fixed seventeenth for every multiset of 4 cells of the 3x3 grid without its centre and for layouts of 5-7 customers; exact and rounded distances; every start by node, by position, closest, smallest angle and best; cw, ccw, both; both objectives; cartesian and polar input; every fourth route limit at which another route becomes feasible, on 5-7 layouts of 5-6 customers in general position",
          "thorough": "as quick, nothing left out, with all multisets of 5 cells of the 3x3 grid, demands {1,2,3}^n, more layouts"}
ASSUMPTIONS = ["symmetric planar distances", "clockwise and counterclockwise as seen with the y axis pointing up", "the smallest angle is the first of the polar ordering the library makes"]


def orders(pts):
    """Every listing of the customers by increasing angle in (-pi, pi]."""
    x0, y0 = pts[0]
    phi = {i: math.atan2(p[1] - y0, p[0] - x0) for i, p in enumerate(pts) if i}
    ids = sorted(phi, key=phi.get)
    groups = []
    for i in ids:
        if groups and phi[i] - phi[groups[-1][-1]] < 1e-9:
            groups[-1].append(i)
        else:
            groups.append([i])
    for ps in itertools.product(*[itertools.permutations(g) for g in groups]):
        yield tuple(itertools.chain(*ps))


def one_sweep(P, order, pos, step):
    n = len(order)
    seq = [order[(pos + step * k) % n] for k in range(n)]
    plan, r = [], ()
    for x in seq:
        if r and not P.fits(r + (x,)):
            plan.append(G.one(r))
            r = ()
        r += (x,)
    plan.append(G.one(r))
    return tuple(sorted(plan))


STEPS = {"cw": (-1,), "ccw": (1,), "both": (1, -1)}


def judge(pts, c):
    P = c.P
    if any(p == pts[0] for p in pts[1:]):
        return None
    ords = list(orders(pts))
    x0, y0 = pts[0]
    rho = {i: math.hypot(p[0] - x0, p[1] - y0) for i, p in enumerate(pts) if i}
    near = min(rho.values())
    memo = {}

    def sweep1(o, pos, step):
        k = (o, pos, step)
        if k not in memo:
            memo[k] = one_sweep(P, o, pos, step)
        return memo[k]

    def best(o, starts, steps, minK):
        t = [sweep1(o, s, st) for s in starts for st in steps]
        m = min(P.key(p, minK) for p in t)
        return {p for p in t if P.key(p, minK) == m}

    n = P.n
    pos0 = sw.get_sweep_from_cartesian_coordinates(pts)
    real = tuple(int(x) for x in pos0[2])
    if real not in ords:
        return "the polar ordering %r does not list the customers by angle, which allows %r" % (real, ords[:4])
    dirs = ("cw", "ccw", "both")
    asks = [("best", sw.BEST_ALTERNATIVE, lambda o: range(n))]
    asks.append(("closest", sw.CLOSEST_TO_DEPOT, None))
    asks.append(("smallest angle", sw.SMALLEST_ANGLE, lambda o: [0]))
    for v in range(1, n + 1):
        asks.append(("customer %d" % v, v, lambda o, v=v: [o.index(v)]))
    for k in range(n):
        asks.append(("position %d" % k, [k], lambda o, k=k: [k]))
    if n > 2:
        asks.append(("positions 1 and %d" % (n - 1), [1, n - 1], lambda o: [1, n - 1]))
    for what, seed, starts in asks:
        for di in dirs:
            for minK in (False, True) if (di == "both" or what[:4] == "posi") else (False,):
                for form in ("xy", "polar") if what in ("best", "closest", "position 0") else ("xy",):
                    co = pts if form == "xy" else pos0.copy()
                    plan, err = c.call(lambda D, d, C, L: sw.sweep_init(co, D, d, C, L, minK, direction=di, seed_node=seed))
                    t = "sweep from %s, %s, minimize_K=%s, %s coordinates: " % (what, di, minK, form)
                    if err:
                        return t + err
                    allowed = set()
                    for o in ords:
                        if starts is None:
                            for v in o:
                                if rho[v] <= near + 1e-9:
                                    allowed |= best(o, [o.index(v)], STEPS[di], minK)
                        else:
                            allowed |= best(o, list(starts(o)), STEPS[di], minK)
                    if plan not in allowed:
                        return t + "%r is not a result of such sweeps, which allow %s" % (plan, show(allowed))
    f = F.algo("swp")
    for single, minK in F.MODES:
        plan, err = c.call(lambda D, d, C, L: f(list(pts), D, d, C, L, None, None, single, minK))
        t = "swp single=%s minimize_K=%s: " % (single, minK)
        if err:
            return t + err
        allowed = set()
        for o in ords:
            allowed |= best(o, [0] if single else range(n), (-1,) if single else (1, -1), minK)
        if plan not in allowed:
            return t + "%r is not a result of such sweeps, which allow %s" % (plan, show(allowed))
    return None


G5 = [(x, y) for x in range(5) for y in range(5) if (x, y) != (2, 2)]


def sources(src):
    kind = src[0]
    if kind == "five":
        _, n, wk, dem, first = src
        for cells in itertools.combinations(G5, n):
            if cells[0] == first:
                yield [(2, 2)] + list(cells), wk, itertools.product(dem, repeat=n)
    elif kind == "three":
        _, n, wk, dem, first = src
        cells = [c for c in I.G3 if c != (1, 1)]
        for m in itertools.combinations_with_replacement(cells, n):
            if m[0] == first:
                yield [(1, 1)] + list(m), wk, itertools.product(dem, repeat=n)
    else:
        _, name, wk, dem, first = src
        base = [p for i, p in enumerate(I.LAYOUTS[name]) if i == 0 or p != I.LAYOUTS[name][0]]
        n = len(base) - 1
        yield base, wk, [first + v for v in itertools.product(dem, repeat=n - len(first))]


def shards(tier):
    q = tier == "quick"
    for name in sorted(I.GENERAL):
        for off in range(4):
            yield (tier, ("limits", name, 4 if name.startswith("gen5") or not q else 32, off))
    for wk in ("EXACT_2D", "EUC_2D"):
        for n in (1, 2, 3):
            for i, f in enumerate(G5):
                if q and n == 3 and i % 2 == (wk == "EUC_2D"):
                    continue
                yield (tier, ("five", n, wk, (1, 2), f))
        for n in (4,) if q else (4, 5):
            for i, f in enumerate(c for c in I.G3 if c != (1, 1)):
                if q and i % 2 == (wk == "EXACT_2D"):
                    continue
                yield (tier, ("three", n, wk, (1, 2) if q else (1, 2, 3), f))
        for name in ("ring6", "clus6", "far6", "fan7", "coin5", "line5") if q else sorted(I.LAYOUTS):
            for first in itertools.product((1, 2), repeat=2):
                yield (tier, ("layout", name, wk, (1, 2) if q or len(I.LAYOUTS[name]) > 6 else (1, 2, 3), first))


def run(shard, rec):
    tier, src = shard
    q = tier == "quick"
    if src[0] == "limits":
        pts = I.GENERAL[src[1]]
        for D, d, C, L in I.limited(*src[1:]):
            rec.state((src[1], repr((d, C, L))))
            c = Ctx(D, d, C, L)
            w = judge(pts, c)
            rec.step(c.runs); rec.valid(c.runs)
            rec.outcome("limits n=%d" % (len(d) - 1))
            if w:
                rec.fail({"pts": pts, "D": D, "d": d, "C": C, "L": L}, "%s on points=%r d=%r C=%r L=%r" % (w, pts, d, C, L))
        return
    for pts, wk, dems in sources(src):
        first = True
        for i, case in enumerate(I.complete(pts, wk, dems)):
            _, _, d, C, L = case
            if q and src[0] != "five" and i % 17:
                continue
            if q and src == ("five", 3) + src[2:] and i % 13:
                continue
            D = ref.matrix(pts, wk)
            if L is not None and not G.metric(D):
                continue
            rec.state(repr(case))
            c = Ctx(D, d, C, L)
            w = judge(pts, c)
            rec.step(c.runs); rec.valid(c.runs)
            rec.outcome("%s n=%d C=%s L=%s" % (src[0], len(d) - 1, C is not None, L is not None))
            if w:
                rec.fail({"pts": pts, "D": D, "d": d, "C": C, "L": L}, "%s on points=%r %s d=%r C=%r L=%r" % (w, pts, wk, d, C, L))
            if first:
                rec.sample({"points": pts, "d": d, "C": C, "L": L})
                first = False


def replay(case):
    return judge([tuple(p) for p in case["pts"]], Ctx(case["D"], case["d"], case["C"], case["L"]))
