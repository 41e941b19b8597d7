"""P27: heuristics that end with route improvement return locally optimal routes."""
import itertools
import numpy as np
from vmc import ref, nb, instances as I, feascheck as F
from vmc.core import guarded
from vmc.plans import graph

LEVEL = "model_checking"
TECHNIQUE = "every enumerated problem is solved by the real heuristics and the complete neighbourhood of every returned plan, enumerated from its definition, is searched for a feasible improvement; the plan is also compared with what the same heuristic returns without its improvement"
NOTE = ("Complete within the bounds. Routes by the exact TSP solver are compared with the cheapest of all orders. LKH is absent, so the routes of Tyagi-Nearest-Neighbour and of CMT are made by the built-in 3-opt.")
BOUNDS = {"quick": "savings with 2-opt, Mole-Jameson, Paessens, route-first on every 5x5 distance matrix over {1,2,4} (a third) and 6x6 over {1,4} (a fourth) with three demand patterns and capacities, also matrices without the triangle inequality; these and CMT, Gillet-Miller, Tyagi, petal, assignment, matching on 6 layouts of 5-8 customers with 3 demand patterns, C and L on borders; both objectives; every eighth route limit at which another route becomes feasible, on 5-7 layouts of 5-6 customers in general position",
          "thorough": "as quick, nothing left out, with more limits and demand patterns on 10 layouts"}
ASSUMPTIONS = ["symmetric distances", "an improvement smaller than 1e-6 may be left when distances are real"]

TWO = ("ps2o", "mj")
THREE = ("gps", "rfcs", "cmt", "gm", "ty", "ptl")
EXACT = ("gap", "mbsa")
STAR = ("lr3o",)


def call(name, pts, D, d, C, L, mode):
    if name == "ty" and mode[1] or name == "gap" and not C and not L:
        return None, None       # documented as not possible
    f = F.algo(name)
    sol, err = guarded(lambda: f(list(pts) if pts else None, D.copy(), None if d is None else list(d), C, L, None, "EUC_2D" if D.dtype.kind == "i" else "EXACT_2D", *mode), 20)
    return sol, err


def have_gurobi():
    try:
        import gurobipy     # noqa: F401
        return True
    except ImportError:
        return False


class Plan:
    def __init__(self, sol, D, d, C, L):
        self.Dl, self.d, self.C, self.L = D.tolist(), d, C, L
        self.routes = [tuple([0] + list(r) + [0]) for r in ref.split(sol)]

    def cost(self, r):
        Dl = self.Dl
        return sum(Dl[a][b] for a, b in zip(r, r[1:]))

    def ok(self, r):
        return not ((self.C and sum(self.d[x] for x in r) > self.C) or (self.L and self.cost(r) > self.L))


_lk = {}


def best(D, nodes):
    k = (D.tobytes(), D.dtype.kind, frozenset(nodes))
    if k not in _lk:
        if len(_lk) > 20000:
            _lk.clear()
        _lk[k] = ref.opt_route_cost(sorted(nodes), D)
    return _lk[k]


def local(name, sol, D, d, C, L):
    """Text of an improvement that was left, or None."""
    P = Plan(sol, D, d, C, L)
    if name in STAR:
        return star(P, sol, D, d, C, L)
    for r in P.routes:
        here = P.cost(r)
        neigh = nb.two_opt(r) if name in TWO else nb.three_opt(r)
        for x in neigh:
            if P.cost(x) < here - 1e-6:
                return "left route %r (cost %r), reconnecting %d edges gives %r (cost %r)" % (r, here, 2 if name in TWO else 3, x, P.cost(x))
        if name in EXACT and len(r) <= 9 and have_gurobi() and best(D, r[1:-1]) < here - 1e-6:
            return "left route %r at cost %r, the same customers can be served at cost %r" % (r, here, best(D, r[1:-1]))
    if name == "mbsa" and have_gurobi():
        for a, b in itertools.combinations(P.routes, 2):
            both = a[1:-1] + b[1:-1]
            if len(both) <= 7 and not (C and sum(d[x] for x in both) > C):
                c = best(D, both)
                if not (L and c > L) and c < P.cost(a) + P.cost(b) - 1e-6:
                    return "left routes %r and %r (cost %r), their customers fit on one route of cost %r" % (a, b, P.cost(a) + P.cost(b), c)
    if name == "mj":
        for i, a in enumerate(P.routes):
            for j, b in enumerate(P.routes):
                if i != j:
                    for x, y in nb.one_point(a, b):
                        if P.ok(y) and P.cost(x) + P.cost(y) < P.cost(a) + P.cost(b) - 1e-6:
                            return "left routes %r and %r, moving one customer gives %r and %r" % (a, b, x, y)
    return None


def star(P, sol, D, d, C, L):
    """A feasible plan of no more routes that replaces at most three edges and is cheaper."""
    n = len(D) - 1
    if n > 6:
        return None
    g = graph(n)
    i = g.idx[ref.canon(ref.split(sol))]
    cost, (sure, _) = g.costs(D), g.feasible(D, d, C, L)
    for j in g.within(i, 3):
        if sure[j] and cost[j] < cost[i] - 1e-6:
            return "left plan %r (cost %r), replacing at most three edges gives %r (cost %r)" % (sol, cost[i], g.plans[j], cost[j])
    return None


def better(a, b, D, minK):
    """True if plan a is worse than b beyond rounding."""
    fa, fb = ref.cost(a, D), ref.cost(b, D)
    if minK:
        ka, kb = a.count(0), b.count(0)
        return ka > kb or (ka == kb and fa > fb + 1e-6)
    return fa > fb + 1e-6


def against_base(name, sol, D, d, C, L, minK):
    """The improved plan is no worse than the one it improves."""
    if name == "ps2o":
        from verypy.classic_heuristics.parallel_savings import parallel_savings_init
        base, err = guarded(lambda: parallel_savings_init(D.copy(), d, C, L, minK), 20)
        if err:
            return "base " + err
        if better(sol, base, D, minK):
            return "returned %r (cost %r), the plan it improves, %r, costs %r" % (sol, ref.cost(sol, D), base, ref.cost(base, D))
    if name == "gps":
        from verypy.classic_heuristics.paessens_savings import paessens_savings_init
        for gf in ((1.0, 0.1), (1.0, 0.5), (1.4, 0.0), (1.4, 0.5)):
            out = []
            for opt in (False, True):
                p, err = guarded(lambda: paessens_savings_init(D.copy(), d, C, L, minK, strategy=[gf], do_3opt=opt), 20)
                if err:
                    return "g,f=%r %s" % (gf, err)
                out.append(p)
            if better(out[1], out[0], D, minK):
                return "with g,f=%r returned %r, without 3-opt it is %r" % (gf, out[1], out[0])
            w = local(name, out[1], D, d, C, L)
            if w:
                return "with g,f=%r %s" % (gf, w)
            if better(sol, out[1], D, minK):
                return "returned %r, with just g,f=%r it is %r" % (sol, gf, out[1])
    return None


def judge(name, pts, D, d, C, L, mode, base):
    sol, err = call(name, pts, D, d, C, L, mode)
    if err:
        return None if F.minK_refused(name, mode[1], err) else err
    if sol is None:
        return None
    if ref.plan_problem(sol, D, d, C, L):
        return None if name not in TWO + ("gps", "rfcs") else "plan " + ref.plan_problem(sol, D, d, C, L)
    w = local(name, sol, D, d, C, L)
    if not w and base:
        w = against_base(name, sol, D, d, C, L, mode[1])
    return w


def cases(src):
    kind = src[0]
    if kind == "matrix":
        _, n, alpha, part, of = src
        m = (n + 1) * n // 2
        iu = np.triu_indices(n + 1, 1)
        for k, v in enumerate(itertools.product(alpha, repeat=m)):
            if k % of != part:
                continue
            D = np.zeros((n + 1, n + 1), dtype=int)
            D[iu] = v
            D = D + D.T
            yield ("ps2o", "mj", "gps", "rfcs")[k // of % 4:][:1] if n > 4 or part % 2 else ("ps2o", "rfcs"), None, D, ([0] + [1] * n, n, None)
            if n <= 4 and k // of % 4 == 0 or k // of % 40 == 0:
                yield STAR + EXACT[1:], None, D, ([0] + [1 + i % 2 for i in range(n)], 4, None)
            if n > 4:       # a route of all customers but one
                yield ("rfcs",), None, D, ([0] + [1] * n, n - 1, None)
                if k // of % 16 == 0:
                    yield ("ps2o", "mj", "gps"), None, D, ([0] + [1] * n, n - 1, None)
            if k // of % 3 == 0:
                yield ("ps2o", "mj", "rfcs"), None, D, ([0] + [2 - i % 2 for i in range(n)], 5, None)
    elif kind == "critical":        # every critical route limit of a layout in general position
        for D, d, C, L in I.limited(*src[1:]):
            yield TWO + THREE + EXACT + STAR, I.GENERAL[src[1]], D, (d, C, L)
    else:
        _, name, wk, pat, dense = src
        base = I.LAYOUTS[name]
        n = len(base) - 1
        d = {0: [0] + [1] * n, 1: [0] + [1 + i % 2 for i in range(n)], 2: [0] + [3 - i % 3 for i in range(n)]}[pat]
        for p, wt in I.kinds(base, (wk,)):
            D = ref.matrix(p, wt)
            Ls = I.L_levels(D, dense)
            s = sum(d)
            for C in ([None] if pat == 0 else []) + [max(max(d), -(-s // 2)), max(max(d), -(-s // 3)), s]:
                for L in (Ls if dense else [Ls[0]] + Ls[2:]):
                    yield TWO + THREE + EXACT + (STAR if n <= 6 else ()), p, D, (d, C, L)


def one(names, pts, D, dCL, rec):
    d, C, L = dCL
    for name in names:
        for mode in ((False, False), (False, True)):
            rec.state((name, D.tobytes(), D.dtype.kind, repr(dCL), mode))
            rec.step(); rec.valid()
            w = judge(name, pts, D, d, C, L, mode, True)
            if w:
                rec.fail({"name": name, "pts": pts, "D": D, "d": d, "C": C, "L": L, "mode": list(mode)},
                         "%s minimize_K=%s d=%r C=%r L=%r points=%r: %s; D=%r" % (name, mode[1], d, C, L, pts, w, D.tolist()))
            rec.outcome("%s%s" % (name, "" if pts else " on matrices"))


def shards(tier):
    th = tier == "thorough"
    out = []
    for name in (I.LAYOUTS if th else ("ring6", "clus6", "far6", "spir7", "coin5", "cross8")):
        for wk in ("EXACT_2D", "EUC_2Dx7"):
            for pat in (0, 1, 2):
                out.append(("layout", name, wk, pat, th))
    for name in sorted(I.GENERAL):
        five = name.startswith("gen5")
        if th or five:
            for off in range(4 if th else 2):
                out.append(("critical", name, (4 if five else 32) if th else 16, off))
    k4, k5 = 48, 64
    for i in range(k4):
        if th or i % 3 == 0:
            out.append(("matrix", 4, (1, 2, 4), i, k4))
    for i in range(k5):
        if th or i % 4 == 1:
            out.append(("matrix", 5, (1, 4), i, k5))
    return out


def run(src, rec):
    for c in cases(src):
        one(*c, rec)


def replay(case):
    D = np.array(case["D"])
    return judge(case["name"], [tuple(p) for p in case["pts"]] if case["pts"] else None, D, case["d"], case["C"], case["L"], tuple(case["mode"]), True)
