"""P26: every refinement step of Wren-Holliday keeps service, feasibility and bookkeeping."""
import itertools
import numpy as np
from vmc import ref, instances as I
from vmc.core import guarded
from verypy.routedata import RouteData
from verypy.classic_heuristics import wren_holliday_sweep as wh
from verypy.classic_heuristics.sweep import get_sweep_from_polar_coordinates, cart2pol

LEVEL = "model_checking"
TECHNIQUE = "explicit enumeration of the states of the improvement phase (every feasible list of routes, in every order and direction, with an empty route at any place); each real step is run from each of them and its successor compared with the definition of a state"
NOTE = ("The enumerated states are closed under the steps, so what holds for one step from each of them holds for every sequence of steps, in any order. "
        "Complete for the listed instances; more than five customers are not covered. Steps are judged on preservation, not on which improvement they choose.")
BOUNDS = {"quick": "2 customers on a 3x3 grid (both depots, 3 distance kinds), 3 customers (one distance kind per depot), 4 customers on 12 layouts, 5 on 4 layouts with two sets of limits; demand patterns x C on the border x L on the border and none; every feasible list of routes; omitted sets of 1-2 customers",
          "thorough": "as quick with denser limits, 4 customers of the grid and 5 customers on 12 layouts"}
ASSUMPTIONS = ["symmetric distances computed from the coordinates; the given routes are feasible",
               "a load or cost within 1e-6 above a limit may be judged either way when numbers are real"]

STEPS = ("inspect", "single", "pair", "delete", "disentangle")
MAY_COST = ("delete", "complain")

L4 = {
    "a": [(0, 0), (4, 0), (0, 4), (-4, 0), (0, -4)],
    "b": [(0, 0), (3, 1), (3, -1), (-3, 1), (-3, -1)],
    "c": [(0, 0), (1, 1), (2, 2), (3, 3), (-2, 1)],
    "d": [(0, 0), (5, 1), (6, 1), (5, 2), (6, 2)],
    "e": [(0, 0), (0, 0), (2, 1), (2, 1), (-1, 3)],
    "f": [(0, 0), (-3, 0), (-5, 0), (-4, 1), (-4, -1)],
}
L5 = {
    "a": [(0, 0), (4, 0), (1, 4), (-3, 2), (-3, -2), (1, -4)],
    "b": [(0, 0), (2, 0), (4, 0), (7, 0), (-3, 0), (-5, 0)],
    "c": [(0, 0), (6, 5), (7, 5), (6, 7), (-5, 4), (-6, 4)],
    "d": [(0, 0), (-3, 1), (-4, -1), (-6, 2), (-5, -3), (3, 0)],
    "e": [(0, 0), (9, 1), (9, 4), (11, 2), (12, 5), (8, 6)],
    "f": [(0, 0), (1, 2), (1, -2), (2, 2), (2, -2), (3, 0)],
}


class Problem:
    def __init__(self, case):
        self.pts, wt, self.d, self.C, self.L = case
        self.D = ref.matrix(self.pts, wt)
        self.Dl = self.D.tolist()
        p = np.asarray(self.pts)
        rho, self.phi = cart2pol(p[:, 0] - p[0][0], p[:, 1] - p[0][1])
        self.sweep = get_sweep_from_polar_coordinates(rho, self.phi)

    def cost(self, r):
        Dl = self.Dl
        return sum(Dl[a][b] for a, b in zip(r, r[1:]))

    def dem(self, r):
        return sum(self.d[x] for x in r) if self.d is not None else 0

    def ok(self, r):
        return not (self.C and self.dem(r) > self.C + 1e-9) and not (self.L and self.cost(r) > self.L + 1e-9)

    def states(self, served):
        """Every feasible list of routes, then the same with an empty route at each place."""
        served = list(served)
        n = len(served)
        for perm in itertools.permutations(served):
            for comp in (ref.compositions(list(perm)) if n else [[]]):
                rs = tuple((0,) + tuple(r) + (0,) for r in comp)
                if not all(self.ok(r) for r in rs):
                    continue
                yield rs
                for k in range(len(rs) + 1):
                    yield rs[:k] + ((0, 0),) + rs[k:]


def run_step(P, name, rds, omitted):
    D, d, C, L = P.D, P.d, P.C, P.L
    if name == "complain":
        return wh.complain_heuristic(rds, omitted, D, C, d, L)
    if name == "disentangle":
        return wh.disentangle_heuristic(rds, P.sweep, P.phi, D, C, d, L)
    return getattr(wh, name + "_heuristic")(rds, D, C, d, L)


def judge(P, name, rs, om):
    """Apply one step to the state; text of what is wrong or None."""
    rds = [RouteData.from_routes([list(r)], P.D, P.d)[0] if len(r) > 2 else RouteData() for r in rs]
    omitted = set(om)
    D0, d0, phi0, sw0 = P.D.copy(), None if P.d is None else list(P.d), P.phi.copy(), P.sweep.copy()
    flag, err = guarded(lambda: run_step(P, name, rds, omitted), 10)
    if err:
        return err
    if not (np.array_equal(D0, P.D) and (P.d is None or list(P.d) == d0) and np.array_equal(phi0, P.phi) and np.array_equal(sw0, P.sweep)):
        return "changed the problem data"
    new = []
    for rd in rds:
        r = tuple(rd.route)
        if len(r) < 2 or r[0] != 0 or r[-1] != 0 or 0 in r[1:-1]:
            return "left the malformed route %r" % (r,)
        if abs(rd.cost - P.cost(r)) > 1e-6:
            return "left route %r with cost %r, it is %r" % (r, rd.cost, P.cost(r))
        if P.C and (rd.demand is None or abs(rd.demand - P.dem(r)) > 1e-6):
            return "left route %r with load %r, it is %r" % (r, rd.demand, P.dem(r))
        if not (P.C is None or P.dem(r) <= P.C + 1e-6) or not (P.L is None or P.cost(r) <= P.L + 1e-6):
            return "left the infeasible route %r (cost %r, load %r)" % (r, P.cost(r), P.dem(r))
        new.append(r)
    served = sorted(x for r in new for x in r if x)
    everyone = sorted(list(om) + [x for r in rs for x in r if x])
    if name == "complain":
        if sorted(served + list(omitted)) != everyone:
            return "left routes serving %r and unassigned customers %r of %r" % (served, sorted(omitted), everyone)
        if len(omitted) > len(om):
            return "left more customers unassigned than before: %r" % (sorted(omitted),)
    elif served != everyone:
        return "left routes serving %r instead of %r" % (served, everyone)
    if not flag:
        if tuple(new) != rs or omitted != set(om):
            return "reported no improvement but changed the routes to %r%s" % (new, " (unassigned %r)" % sorted(omitted) if om else "")
    if name not in MAY_COST:
        a, b = sum(P.cost(r) for r in rs), sum(P.cost(r) for r in new)
        fewer = sum(len(r) > 2 for r in new) < sum(len(r) > 2 for r in rs)
        if b > a + 1e-6 and not (name == "disentangle" and fewer):
            return "raised the cost from %r to %r with routes %r" % (a, b, new)
    return None


def one(case, rec):
    P = Problem(case)
    pts, wt, d, C, L = case
    n = len(pts) - 1
    todo = [()] + [o for k in (1, 2) for o in itertools.combinations(range(1, n + 1), k) if k < n]
    for om in todo:
        served = [x for x in range(1, n + 1) if x not in om]
        for rs in P.states(served):
            rec.state((pts, wt, d, C, L, rs, om))
            for name in (STEPS if not om else ("complain",)):
                rec.step(); rec.valid()
                w = judge(P, name, rs, om)
                if w:
                    rec.fail({"case": case, "step": name, "routes": rs, "omitted": list(om)},
                             "step %s from routes %r%s on points=%r %s d=%r C=%r L=%r: %s" % (name, rs, " unassigned %r" % (om,) if om else "", pts, wt, d, C, L, w))
    rec.outcome("n=%d C=%s L=%s" % (n, C is not None, L is not None))


def cases(src):
    kind = src[0]
    if kind == "grid":
        _, n, dep, wk, dense, first = src
        pats = [[1] * n, [1 + i % 2 for i in range(n)]]
        for pts in I.grid(n, (dep,)):
            if first is not None and pts[1] != first:
                continue
            for p, wt in I.kinds(pts, (wk,)):
                for c in I.complete(p, wt, pats if not dense else itertools.product((1, 2), repeat=n), dense):
                    yield c
    elif kind == "five":
        _, name, k = src
        pts = L5[name]
        L = sorted(I.L_levels(ref.matrix(pts), False)[1:])[1]
        yield [(pts, "EXACT_2D", [0, 2, 1, 2, 1, 2], 4, L), (pts, "EXACT_2D", [0, 1, 1, 1, 1, 1], 3, None)][k]
    else:
        _, name, wk, dense = src
        pts = (L4 if kind == "l4" else L5)[name]
        n = len(pts) - 1
        D = None
        for p, wt in I.kinds(pts, (wk,)):
            D = ref.matrix(p, wt)
            Ls = [x for x in I.L_levels(D, dense)]
            for d in ([0] + [1] * n, [0] + [2 - i % 2 for i in range(n)]):
                s = sum(d)
                for C in ([max(d), -(-s // 2), s] if not dense else range(max(d), s + 1)):
                    for L in (Ls[:3] if not dense else Ls):
                        if kind == "l5" and L is None and C == s and not dense:
                            continue
                        yield p, wt, d, C, L
            for L in Ls:
                yield p, wt, None, None, L


def shards(tier):
    out = []
    for dep in ((1, 1), (0, 0)):
        for wk in ("EXACT_2D", "EUC_2D", "EUC_2Dx7"):
            for first in I.G3:
                out.append(("grid", 2, dep, wk, tier == "thorough", first))
                if wk == "EXACT_2D" and (tier == "thorough" or dep == (1, 1)) or wk == "EUC_2Dx7" and (tier == "thorough" or dep == (0, 0)):
                    out.append(("grid", 3, dep, wk, False, first))
    for name in L4:
        for wk in ("EXACT_2D", "EUC_2Dx7"):
            out.append(("l4", name, wk, tier == "thorough"))
    for name in "adef":
        for k in range(2):
            out.append(("five", name, k))
    if tier == "thorough":
        for name in L5:
            for wk in ("EXACT_2D", "EUC_2Dx7"):
                out.append(("l5", name, wk, False))
        for first in I.G3:
            out.append(("grid", 4, (1, 1), "EXACT_2D", False, first))
    return out


def run(src, rec):
    for c in cases(src):
        one(c, rec)


def replay(case):
    return judge(Problem(tuple(case["case"])), case["step"], tuple(tuple(r) for r in case["routes"]), tuple(case["omitted"]))
