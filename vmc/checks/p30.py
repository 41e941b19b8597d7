"""P30: the assignment and the petal heuristic return the optimum of the model
they state: cheapest assignment to the seeds, cheapest choice of petals."""
import itertools, math, functools
from vmc import ref, instances as I, feascheck as F
from vmc.core import guarded
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of small problems; every assignment of customers to seeds and every division of the sweep is enumerated independently and compared with the plan of the real code; seeds compared with an independent model of the cone rule"
NOTE = ("The assignment model is solved by enumerating all K^n assignments; the search over seeds, numbers of vehicles and "
        "route-limit multipliers is followed step by step with the optimum of every step. Problems in which two assignments of a step cost the same but give different plans, or where a step needs the solver's "
        "own relaxation of an infeasible model, are skipped and counted. The petal heuristic's plan must be no worse than the best division of the customers, "
        "in order of angle, into feasible groups routed optimally.")
BOUNDS = {"quick": "assignment: 6 generic layouts of 4-6 customers x 40/20/4 demand vectors over {1,2,3,4} x C levels x two route limits x both objectives x one/all seeds, fixed and adaptive weights, temporary increases of K, service time, given K, all four seed methods on one; cone seeds: 6 layouts of 4-7 customers x at most 243 demand vectors over {1,2,3} x K = 1..4 x every start; petal: 6 layouts x at most 40 demand vectors over {1,3} x C x L levels x both objectives; petal: every fourth route limit, assignment: limits between any two such at which another route becomes feasible, on 5-7 layouts of 5-6 customers in general position",
          "thorough": "assignment: 7 layouts of 4-6 customers x 256/120/40 demand vectors; cone seeds: up to 729 demand vectors; petal: 8 layouts up to 7 customers x at most 243 demand vectors over {1,2,3}"}
ASSUMPTIONS = ["planar exact distances, no two assignments of (nearly) equal cost with different plans",
               "gurobi is trusted to solve small models to its tolerances (1e-4 relative gap, 1e-6 feasibility)",
               "seed methods other than cones are taken as given"]

LAY = {
    "a4": [(0, 0), (31, 7), (-12, 26), (-23, -19), (17, -28)],
    "b4": [(0, 0), (40, 11), (43, -9), (5, 37), (-21, 13)],
    "a5": [(2, 3), (29, 14), (11, 33), (-19, 22), (-27, -13), (13, -26)],
    "b5": [(5, 1), (38, 6), (34, 17), (16, 36), (-24, 5), (7, -31)],
    "c5": [(0, 0), (19, 23), (22, 35), (31, 26), (-9, -33), (-17, -6)],
    "a6": [(1, 2), (30, 9), (21, 27), (-6, 33), (-28, 12), (-20, -21), (15, -30)],
    "b6": [(0, 0), (12, 41), (17, 33), (35, 19), (28, -14), (-11, -26), (-36, 3)],
    "a7": [(3, -2), (33, 4), (26, 21), (9, 34), (-14, 28), (-31, 6), (-18, -25), (12, -29)],
}


def matrix(pts, st=0):
    """Exact distances; half the service time is spent at each end, not at the depot."""
    D = ref.matrix(pts, "EXACT_2D")
    if st:
        n = len(pts)
        D = D + [[0 if i == j else st / 2. * ((i > 0) + (j > 0)) for j in range(n)] for i in range(n)]
    return D


def real(name):
    from verypy.classic_heuristics import gapvrp
    return getattr(gapvrp, name, None)


# ---- seeds ---------------------------------------------------------------

def cone_seeds(pts, d, K, start):
    """Fisher & Jaikumar: customers' cones in order of angle share the plane;
    K groups of equal demand; the seed on the ray in the middle of its group, at
    the distance under which three quarters of the group's demand lies."""
    x0, y0 = pts[0]
    pol = sorted((math.atan2(y - y0, x - x0), math.hypot(x - x0, y - y0), i) for i, (x, y) in enumerate(pts) if i)
    n = len(pol)
    order = [pol[(start + k) % n] for k in range(n)]
    phis = []
    turn = 0.0
    for k, (p, _, _) in enumerate(order):
        if k and p + turn < phis[-1]:
            turn += 2 * math.pi
        phis.append(p + turn)
    prev = phis[-1] - 2 * math.pi
    rays = [(a + b) / 2 for a, b in zip([prev] + phis, phis + [phis[0] + 2 * math.pi])]
    target = sum(d) / float(K)
    # cumulated demand before each cone
    seeds = []
    cum = [0.0]
    for _, _, i in order:
        cum.append(cum[-1] + d[i])

    def ray_at(w):
        for k in range(n):
            if w <= cum[k + 1] + 1e-9:
                return rays[k] + (rays[k + 1] - rays[k]) * (w - cum[k]) / (cum[k + 1] - cum[k])
        return rays[n]
    for g in range(K):
        lo, hi = g * target, (g + 1) * target
        phi = (ray_at(lo) if g else rays[0], ray_at(hi))
        phi = (phi[0] + phi[1]) / 2
        inside = sorted((order[k][1], d[order[k][2]]) for k in range(n) if cum[k] < hi - 1e-9 and cum[k + 1] > lo + 1e-9)
        want, have, rho = 0.75 * target, 0.0, 0.0
        for r, w in inside:
            if have + w > want:
                rho += (want - have) / w * (r - rho)
                break
            have += w
            rho = r
        seeds.append((x0 + rho * math.cos(phi), y0 + rho * math.sin(phi)))
    return seeds


def seed_problem(pts, d, C, K, start):
    f = real("_sweep_seed_points")
    if f is None:
        return None
    D = ref.matrix(pts, "EXACT_2D")
    got, err = guarded(lambda: f(list(pts), D, list(d), C, K, start), 10)
    tag = "cone seeds of points=%r d=%r C=%r K=%d start=%d" % (pts, d, C, K, start)
    if err:
        return tag + " " + err
    want = cone_seeds(pts, d, K, start)
    if len(got) != K or any(abs(a - b) > 1e-6 for g, w in zip(got, want) for a, b in zip(g, w)):
        return "%s: %r, the rule gives %r" % (tag, got, want)
    return None


# ---- the assignment heuristic ---------------------------------------------

@functools.lru_cache(maxsize=None)
def _route(key, nodes):
    """(length, how) of the cheapest route over the nodes."""
    D = _D[key]
    if not nodes:
        return 0.0
    return min(ref.rcost(p, D) for p in itertools.permutations(nodes) if p[0] <= p[-1])


_D = {}


class Skip(Exception):
    pass


def assign(key, pts, S, d, C, K, L, mult):
    """The clusters of the cheapest assignment to the seeds; None if none fits."""
    D = _D[key]
    n = len(D) - 1
    ins = [[D[0, i] + S[k][i] - S[k][0] for i in range(1, n + 1)] for k in range(K)]
    good = []

    def rec(i, cost, load, length, ass):
        if i == n:
            good.append((cost, tuple(ass)))
            return
        for k in range(K):
            w = load[k] + (d[i + 1] if C else 0)
            if C and w > C + 1e-9:
                continue
            a, b = load[k], length[k]
            load[k], length[k] = w, b + ins[k][i] * mult
            ass.append(k)
            rec(i + 1, cost + ins[k][i], load, length, ass)
            ass.pop()
            load[k], length[k] = a, b

    def fits(ass):
        if not L:
            return True
        for k in range(K):
            x = sum(ins[k][i] * mult for i in range(n) if ass[i] == k)
            if abs(x - L) < 1e-4 * max(1, L):
                raise Skip("on the border of the route limit")
            if x > L:
                return False
        return True
    rec(0, 0.0, [0] * K, [0.0] * K, [])
    if not good:
        return None
    good = [g for g in good if fits(g[1])]
    if not good:
        if L:
            raise Skip("relaxed model")
        return None
    best = min(good)[0]
    near = [g for g in good if g[0] <= best + 2e-4 * abs(best) + 1e-6]
    parts = set()
    for _, ass in near:
        parts.add(tuple(sorted(tuple(i + 1 for i in range(n) if ass[i] == k) for k in set(ass))))
    if len(parts) > 1:
        raise Skip("ties")
    return list(parts)[0]


def gap_model(pts, d, C, L, minK, K=None, every=True, adaptive=True, method="cones", more=False, st=0):
    """(routes, length) of the plan the stated procedure ends with, or None."""
    f = real({"cones": "_sweep_seed_points", "kmeans": "_kmeans_seed_points", "large_demands": "_large_demand_seed_points", "ends_of_thoroughfares": "_end_of_thoroughfares_seed_points"}[method])
    if f is None:
        raise Skip("no seed function")
    D = matrix(pts, st)
    key = repr((pts, st))
    _D[key] = D
    n = len(D) - 1
    best = None
    first = K or max(1, int(math.ceil(sum(d) / C - 1e-12)))
    most = max(first + 1, int(first * 1.1))
    for base in range(first, (K or n) + 1):
        better = False
        # with `more`, a failure is met with a temporary increase of K
        for trial, k in ((t, k) for t in range(n + 1 if every else 1) for k in [base] + (list(range(base + 1, most + 1)) if more else [])):
            if k == base:
                done = False
            if done:
                continue
            seeds = f(list(pts), D.copy(), list(d), C, k, trial)
            S = [[math.hypot(s[0] - x, s[1] - y) + (st / 2. if i else 0) for i, (x, y) in enumerate(pts)] for s in seeds]
            # a route limit that the routes of the assignment break is enforced
            # step by step harder in the assignment
            for mult in ((0.85, 1.7, 2.55, 3.4) if L and adaptive else (1.0,)):
                parts = assign(key, pts, S, d, C, k, L, mult)
                if parts is None:
                    continue
                lens = [_route(key, p) for p in parts]
                if L and any(abs(x - L) < 1e-6 for x in lens):
                    raise Skip("on the border of the route limit")
                if L and any(x > L for x in lens):
                    continue
                done = True
                v = (len(parts), sum(lens))
                if best is None or (v < (best[0], best[1] - 1e-9) if minK else v[1] < best[1] - 1e-9):
                    if best is not None and best[0] == v[0] and abs(best[1] - v[1]) < 1e-6:
                        break
                    best = v
                    better = True
                break
        if best is not None and (minK or not better):
            break
    return best


def gap_problem(case):
    pts, d, C, L, minK, kw = case
    tag = "assignment heuristic minimize_K=%s %s on points=%r d=%r C=%r L=%r" % (minK, kw, pts, d, C, L)
    want = gap_model(pts, d, C, L, minK, **kw)
    D = matrix(pts, kw.get("st", 0))
    from verypy.classic_heuristics.gapvrp import gap_init
    sol, err = guarded(lambda: gap_init(list(pts), D.copy(), list(d), C, L, st=kw.get("st"), K=kw.get("K"), minimize_K=minK, find_optimal_seeds=kw.get("every", True),
                                        seed_method=kw.get("method", "cones"), seed_edge_weight_type="EXACT_2D",
                                        increase_K_on_failure=kw.get("more", False), use_adaptive_L_constraint_weights=kw.get("adaptive", True)), 120)
    if err:
        return tag + " " + err
    if sol is None or want is None:
        return None if sol is want else "%s: the plan is %r, the stated procedure gives %r" % (tag, sol, want)
    p = ref.plan_problem(sol, D, d, C, L)
    if p:
        return "%s: plan %s" % (tag, p)
    rs = ref.split(sol)
    got = (len(rs), sum(ref.rcost(r, D) for r in rs))
    if got[0] != want[0] or abs(got[1] - want[1]) > 1e-6:
        return "%s: the plan has %d routes, length %.6f, the stated procedure gives %d routes, length %.6f" % ((tag,) + got + want)
    return None


def vectors(n, count):
    """`count` demand vectors over {1,2,3,4}, none of them constant but the first."""
    allv = [v for v in itertools.product((1, 2, 3, 4), repeat=n)]
    out = [tuple([1] * n)]
    for j in range(1, count):
        out.append(allv[(j * 2654435761 + 97 * j * j) % len(allv)])
    return list(dict.fromkeys(out))


def gap_cases(lay, count, full):
    pts = LAY[lay]
    n = len(pts) - 1
    D = ref.matrix(pts, "EXACT_2D")
    m = 2 * max(D[0])
    for j, v in enumerate(vectors(n, count)):
        d = [0] + list(v)
        s = sum(d)
        Cs = sorted({max(max(d), -(-s // 2)), max(max(d), -(-s // 3) + 1), max(max(d), -(-s // 4) + 2)})
        for a, C in enumerate(Cs):
            for b, L in enumerate((None, 1.45 * m, 2.1 * m)):
                if not full and L and (a + b + j) % 2:
                    continue
                for minK in (False, True):
                    for kw in ({}, {"every": False}) + (({"every": False, "adaptive": False},) if L else ()):
                        yield pts, d, C, L, minK, kw
                    if not L or j % 2:
                        yield pts, d, C, L, minK, {"more": True, "adaptive": False, "every": bool(j % 4 == 1)}
                    if L and j % 2 == 0:
                        yield pts, d, C, L + 20 * (2 + b), minK, {"st": 20, "every": False}
                if j % 3 == 0:
                    yield pts, d, C, L, False, {"K": 2 + (a + b) % 2, "every": False}
        # route limits between any two at which another route becomes feasible
        if j % 4 == 0 or full:
            cr = I.critical(D)
            for x, (lo, hi) in enumerate(list(zip(cr, cr[1:]))[j // 4 % 2::{4: 1, 5: 6}.get(n, 64)]):
                if hi - lo > 1e-3:
                    for C in (Cs[x % len(Cs)], s):
                        for minK in (False, True):
                            yield pts, d, C, (lo + hi) / 2, minK, {"every": bool(x % 2)}
        if j % 4 == 1:
            for method in ("kmeans", "large_demands", "ends_of_thoroughfares"):
                yield pts, d, Cs[0], None, True, {"every": False, "method": method}


# ---- petals ----------------------------------------------------------------

def best_division(key, pts, d, C, L):
    """((routes, length) of the best by routes, length of the best by length)."""
    D = _D[key]
    n = len(D) - 1
    ang = sorted(range(1, n + 1), key=lambda i: math.atan2(pts[i][1] - pts[0][1], pts[i][0] - pts[0][0]))
    byk = byc = None
    for mask in range(1, 1 << n):
        cuts = [i for i in range(n) if mask >> i & 1]
        tot = 0.0
        for a, b in zip(cuts, cuts[1:] + [cuts[0] + n]):
            g = tuple(sorted(ang[j % n] for j in range(a, b)))
            if C and sum(d[v] for v in g) > C + 1e-9:
                break
            x = _route(key, g)
            if L and x > L + 1e-9:
                break
            tot += x
        else:
            v = (len(cuts), tot)
            if byk is None or v < byk:
                byk = v
            if byc is None or tot < byc:
                byc = tot
    return byk, byc


def petal_problem(case):
    pts, d, C, L, minK, kw = case
    tag = "petal heuristic minimize_K=%s %s on points=%r d=%r C=%r L=%r" % (minK, kw or "", pts, d, C, L)
    D = ref.matrix(pts, "EXACT_2D")
    key = repr(pts)
    _D[key] = D
    from verypy.classic_heuristics.petalvrp import petal_init
    sol, err = guarded(lambda: petal_init(list(pts), D.copy(), list(d) if d else None, C, L, minimize_K=minK, **kw), 60)
    if err:
        return tag + " " + err
    if sol is None:
        return tag + ": no plan, dividing the sweep gives one"
    p = ref.plan_problem(sol, D, d, C, L)
    if p:
        return "%s: plan %s" % (tag, p)
    rs = ref.split(sol)
    got = (len(rs), sum(ref.rcost(r, D) for r in rs))
    byk, byc = best_division(key, pts, d, C, L)
    if minK and (got[0] > byk[0] or got[0] == byk[0] and got[1] > byk[1] + 1e-6):
        return "%s: %d routes, length %.6f; the best division of the sweep has %d, length %.6f" % ((tag,) + got + byk)
    if not minK and got[1] > byc + 1e-6:
        return "%s: length %.6f; the best division of the sweep has length %.6f" % (tag, got[1], byc)
    return None


def petal_cases(lay, dem, limit):
    if lay in I.GENERAL:            # every critical route limit
        for i, (D, d, C, L) in enumerate(I.limited(lay, dem)):
            for minK in (False, True):
                yield I.GENERAL[lay], d, C, L, minK, {}
        return
    pts = LAY[lay]
    n = len(pts) - 1
    D = ref.matrix(pts, "EXACT_2D")
    vecs = list(itertools.product(dem, repeat=n))
    step = max(1, len(vecs) // limit)
    for j, v in enumerate(vecs[::step]):
        d = [0] + list(v)
        for C in I.C_levels(d):
            if C is None and j:
                continue
            Ls = I.L_levels(D)
            for L in Ls if j % 4 == 0 else Ls[:1] + Ls[1 + j % (len(Ls) - 1):][:1]:
                for minK in (False, True):
                    yield pts, d, C, L, minK, {}
                if j % 5 == 2:
                    yield pts, d, C, L, False, {"relaxe_SCP_solutions": False}
                    yield pts, d, C, L, True, {"relaxe_SCP_solutions": False}


# ---- driver ----------------------------------------------------------------

def shards(tier):
    q = tier == "quick"
    for lay in (("a4", "b4", "a5", "b5", "c5", "a6") if q else ("a4", "b4", "a5", "b5", "c5", "a6", "b6")):
        for k in range(8):
            yield ("gap", lay, {"4": 40, "5": 20, "6": 4}[lay[1]] if q else {"4": 256, "5": 120, "6": 40}[lay[1]], not q, k, 8)
    for lay in ("a4", "b4", "a5", "b5", "a6", "a7") if q else sorted(LAY):
        for k in range(2):
            yield ("seeds", lay, 243 if q else 729, None, k, 2)
    for lay in ("a4", "b4", "a5", "c5", "a6", "b6") if q else sorted(LAY):
        for k in range(8):
            yield ("petal", lay, (1, 3) if q else (1, 2, 3), 40 if q else 243, k, 8)
    for lay in sorted(I.GENERAL):
        if not q or lay != "gen6b":
            for k in range(2):
                yield ("petal", lay, (4 if lay[3] == "5" else 40) if q else 1 if lay[3] == "5" else 8, None, k, 2)


def run(shard, rec):
    kind, lay, x, y, k, m = shard
    if kind == "seeds":
        pts = LAY[lay]
        n = len(pts) - 1
        vecs = list(itertools.product((1, 2, 3), repeat=n))
        vecs = vecs[::max(1, len(vecs) // x)]
        for i, v in enumerate(vecs):
            if i % m != k:
                continue
            d = [0] + list(v)
            for K in (1, 2, 3, 4):
                # a customer that fills several groups is outside the rule
                if max(d) > sum(d) / float(K):
                    continue
                for C in sorted({max(max(d), -(-sum(d) // K)), sum(d)}):
                    for start in range(n):
                        rec.state(("seeds", lay, v, K, C, start))
                        w = seed_problem(pts, d, C, K, start)
                        rec.step(); rec.valid()
                        if w:
                            rec.fail(["seeds", [list(p) for p in pts], d, C, K, start], w)
        return
    for i, case in enumerate(gap_cases(lay, x, y) if kind == "gap" else petal_cases(lay, x, y)):
        if i % m != k:
            continue
        rec.state((kind, repr(case)))
        try:
            w = gap_problem(case) if kind == "gap" else petal_problem(case)
        except Skip as e:
            rec.outcome("skipped: " + str(e))
            continue
        rec.step(); rec.valid()
        rec.outcome(kind + " compared")
        if w:
            rec.fail([kind, [list(p) for p in case[0]]] + list(case[1:]), w)


def replay(case):
    pts = [tuple(p) for p in case[1]]
    if case[0] == "seeds":
        return seed_problem(pts, *case[2:])
    try:
        return (gap_problem if case[0] == "gap" else petal_problem)((pts,) + tuple(case[2:]))
    except Skip:
        return None
