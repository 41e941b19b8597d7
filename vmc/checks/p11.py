"""P11: moves between routes keep routes feasible and their bookkeeping exact."""
import itertools
import numpy as np
from vmc import ref, nb, instances as I
from vmc.core import guarded
from verypy.local_search import LSOPT
from verypy.local_search import inter_route_operators as ops
from verypy.routedata import RouteData

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of groups of feasible routes with border-line limits; the real operator's answer is compared with its complete neighbourhood, enumerated independently"
NOTE = ("Complete within the bounds: every pair (and triple) of feasible routes over the enumerated instances, with capacity and route limit "
        "placed exactly on the costs where a move becomes (in)feasible; includes distances that break the triangle inequality. "
        "More than five customers are not covered. The operators in inter_route_3opt_operators are documented as incomplete and are not judged. "
        "For insertion of several customers at once, and redistribution with a required level, a refusal is always accepted.")
BOUNDS = {"quick": "all pairs/triples of routes serving 2-3 customers on every multiset of a 3x3 grid (half of the distance kinds) and on all 4x4 matrices over {1,2,4}; 4 customers on all 5x5 matrices over {1,4} in one labelling (one demand pattern, three route limits, as for the corner depot and the layouts); all pairs/triples of 2 layouts of 5 customers; demand patterns x C on the border and one above x L on the border, the next two costs and none; 2 strategies x 3-4 required levels",
          "thorough": "as quick with all distance kinds, 4 customers on the grid, 5x5 matrices over {1,2,4} and 5 layouts"}
ASSUMPTIONS = ["symmetric distances; the given routes are feasible",
               "a change within 1e-7 of the required level, or a load or cost within 1e-7 above a limit, may be judged either way when numbers are real",
               "a reported demand is judged only when a capacity is given"]
STRAT = (LSOPT.FIRST_ACCEPT, LSOPT.BEST_ACCEPT)


class Case:
    def __init__(self, D, d, C, L, routes):
        self.D, self.d, self.C, self.L = D, d, C, L
        self.routes = tuple(tuple(r) for r in routes)
        self.Dl = D.tolist()
        self.exact = D.dtype.kind == "i"
        self._f = {}

    def cost(self, r):
        Dl = self.Dl
        return sum(Dl[a][b] for a, b in zip(r, r[1:]))

    def dem(self, r):
        return sum(self.d[x] for x in r) if self.d is not None else 0

    def over(self, r):
        """How far the route exceeds its limits (<=0: feasible)."""
        if r not in self._f:
            x = -1.0
            if self.C:
                x = max(x, self.dem(r) - self.C)
            if self.L:
                x = max(x, self.cost(r) - self.L)
            self._f[r] = x
        return self._f[r]

    def surely(self, rs):
        return all(self.over(r) <= 1e-12 for r in rs)

    def maybe(self, rs):
        return all(self.over(r) <= 1e-7 for r in rs)

    def datas(self):
        return RouteData.from_routes([list(r) for r in self.routes], self.D, self.d)


def canon(rs):
    return tuple(sorted(min(r, r[::-1]) for r in rs))


def check_rds(c, rds, deltas_from):
    """Bookkeeping of returned routes; None or text."""
    out = []
    for rd in rds:
        if not isinstance(rd, RouteData):
            return "returned %r instead of a route record" % (rd,), None
        r = tuple(rd.route)
        if len(r) < 2 or r[0] != 0 or r[-1] != 0 or 0 in r[1:-1]:
            return "returned the malformed route %r" % (r,), None
        if abs(rd.cost - c.cost(r)) > 1e-7:
            return "reports cost %r for route %r, it is %r" % (rd.cost, r, c.cost(r)), None
        if c.C and (rd.demand is None or abs(rd.demand - c.dem(r)) > 1e-7):
            return "reports demand %r for route %r, it is %r" % (rd.demand, r, c.dem(r)), None
        out.append(r)
    if not c.maybe(out):
        return "returned routes that break a constraint: %r" % (out,), None
    served = sorted(x for r in out for x in r if x)
    if served != deltas_from:
        return "returned routes that serve %r instead of %r" % (served, deltas_from), None
    return None, out


def levels(best):
    out = [None, 1000]
    if best is not None:
        out += [best, best + 1]
    else:
        out += [-1]
    return out


def neighbourhood_op(c, name, only=None):
    op = getattr(ops, name)
    gen = nb.NB2.get(name) or nb.NB3[name]
    if len({id(r) for r in c.routes}) == 0:
        return None
    neigh = gen(*c.routes)
    base = sum(c.cost(r) for r in c.routes)
    delta_of = {}
    best = None
    me = canon(c.routes)
    for x in neigh:
        k = canon(x)
        v = sum(c.cost(r) for r in x) - base
        delta_of[k] = v
        if k != me and c.surely(x) and (best is None or v < best):
            best = v
    served = sorted(x for r in c.routes for x in r if x)
    tol = 0 if c.exact else 1e-7
    for st in STRAT:
        for lev in levels(best):
            tag = (name, st, lev)
            if only and tag != tuple(only):
                continue
            rds = c.datas()
            D = c.D.copy()
            out, err = guarded(lambda: op(*(rds + [D, c.d, c.C, c.L, st, lev])), 10)
            if err:
                return tag, err
            if not (D == c.D).all() or [tuple(rd.route) for rd in rds] != list(c.routes) or any(abs(rd.cost - c.cost(r)) > 1e-9 for rd, r in zip(rds, c.routes)):
                return tag, "changed its input"
            level = lev or 0
            if not isinstance(out, (tuple, list)) or len(out) != len(c.routes) + 1:
                return tag, "returned %r" % (out,)
            if out[-1] is None:
                if any(x is not None for x in out):
                    return tag, "returned %r" % (out,)
                if best is not None and best < level - tol - (1e-9 if c.exact else 0):
                    return tag, "reported no move although a feasible one changes the cost by %r" % (best,)
                continue
            w, got = check_rds(c, out[:-1], served)
            if w:
                return tag, w
            k = canon(got)
            if k != me and k not in delta_of:
                return tag, "returned %r, which is not in its neighbourhood" % (got,)
            true = sum(c.cost(r) for r in got) - base
            if abs(true - out[-1]) > 1e-7:
                return tag, "reported a change of %r, it is %r" % (out[-1], true)
            if not true < level + tol:
                return tag, "reported a change of %r, which does not beat the required %r" % (out[-1], level)
            if st == LSOPT.BEST_ACCEPT and best is not None and true > min(best, level) + 1e-7 and not (k == me and best > 0):
                return tag, "reported a change of %r, the best of the neighbourhood is %r" % (true, best)
    return None


def positions(c, r, x, st, last):
    """Ways the insertion of x into r may go: list of new routes (empty: refused)."""
    ways = [r[:k] + (x,) + r[k:] for k in range(1, len(r))]
    ok = [w for w in ways if c.surely((w,))]
    maybe = [w for w in ways if c.maybe((w,))]
    if st == LSOPT.FIRST_ACCEPT:
        return maybe, not ok
    if not maybe:
        return [], True
    m = min(c.cost(w) for w in maybe)
    return [w for w in maybe if c.cost(w) <= m + 1e-7], not ok


def insert_op(c, only=None):
    """routes[0] is what is inserted, routes[1] receives."""
    a, b = c.routes[0], c.routes[1]
    cust = list(a[1:-1])
    served = sorted(cust + [x for x in b if x])
    forms = [("route", None)]
    if len(cust) == 1:
        forms += [("int", None)]
    forms += [("list", None)]
    for form, _ in forms:
        for st in STRAT:
            for lev in (None, 0.5, 1000):
                tag = ("do_insert_move " + form, st, lev)
                if only and tag != tuple(only):
                    continue
                rds = c.datas()
                arg = {"route": rds[0], "int": cust[0], "list": list(cust)}[form]
                D = c.D.copy()
                out, err = guarded(lambda: ops.do_insert_move(arg, rds[1], D, c.d, c.C, c.L, st, lev), 10)
                if err:
                    return tag, err
                if tuple(rds[0].route) != a or tuple(rds[1].route) != b or abs(rds[1].cost - c.cost(b)) > 1e-9 or not (D == c.D).all():
                    return tag, "changed its input"
                if out[-1] is None:
                    if any(x is not None for x in out):
                        return tag, "returned %r" % (out,)
                    if len(cust) == 1:
                        ways, maybe_none = positions(c, b, cust[0], LSOPT.BEST_ACCEPT, True)
                        if not maybe_none and c.surely(ways[:1]):
                            dl = c.cost(ways[0]) - c.cost(b)
                            if lev is None or (st == LSOPT.BEST_ACCEPT and dl < lev - 1e-6):
                                return tag, "refused an insertion that fits: %r" % (ways[0],)
                    continue
                if not (isinstance(out[0], RouteData) and out[0].is_empty()):
                    return tag, "left something on the emptied route: %s" % (out[0],)
                w, got = check_rds(c, out[1:2], served)
                if w:
                    return tag, w
                if [x for x in got[0] if x in b] != list(b):
                    return tag, "changed the order of the receiving route: %r" % (got[0],)
                dl = c.cost(got[0]) - c.cost(b)
                if abs(dl - out[-1]) > 1e-7:
                    return tag, "reported a change of %r, it is %r" % (out[-1], dl)
                if lev is not None and dl > lev + 1e-7:
                    return tag, "reported a change of %r, which does not beat the required %r" % (dl, lev)
                if len(cust) == 1 and st == LSOPT.BEST_ACCEPT:
                    ways, _ = positions(c, b, cust[0], st, True)
                    if got[0] not in ways:
                        return tag, "inserted at a cost of %r, cheaper positions exist: %r" % (dl, ways)
    return None


def redistribute_outcomes(c, cust, receivers, st, skip=False):
    """All results of the sequential procedure: set of routes-tuples, and None for refusal.

    skip: a receiver that could take the customer may be passed over (trying
    several orders, a way that cannot beat the best order so far is dropped).
    """
    states = {tuple(receivers)}
    out = set()
    for x in cust:
        nxt = set()
        for s in states:
            todo = True
            for k, r in enumerate(s):
                ways, maybe_none = positions(c, r, x, st, True)
                for w in ways:
                    nxt.add(s[:k] + (w,) + s[k + 1:])
                if not maybe_none and not skip:
                    todo = False
                    break
            if todo:
                out.add(None)
        states = nxt
    return out | states


def redistribute_op(c, only=None):
    a, rest = c.routes[0], c.routes[1:]
    cust = list(a[1:-1])
    served = sorted(x for r in c.routes for x in r if x)
    base = sum(c.cost(r) for r in rest)
    metric = (c.D[:, :, None] + c.D[None, :, :] >= c.D[:, None, :] - 1e-9).all()
    for lvl in (0, 1, 2, 3):
        cs = list(itertools.permutations(cust)) if lvl in (1, 3) else [tuple(cust)]
        rs = list(itertools.permutations(rest)) if lvl in (2, 3) else [tuple(rest)]
        if lvl and len(cs) == 1 and len(rs) == 1:
            continue
        for st in STRAT:
            outs = [redistribute_outcomes(c, x, y, st) for x in cs for y in rs]
            val = lambda o: sum(c.cost(r) for r in o) - base
            can_fail = all(None in o for o in outs)
            worst = min([max(val(s) for s in o) for o in outs if None not in o] or [float("inf")])
            if lvl:
                if not metric:      # an insertion may be cheaper than free: dropping a way early may lose the best
                    worst = float("inf")
                loose = None
            else:
                loose = outs
            low = min([val(s) for o in outs for s in o if s is not None] or [0])
            for lev in (None, low, low + 1, 0.5):
                tag = ("do_redistribute_move level=%d" % lvl, st, lev)
                if only and tag != tuple(only):
                    continue
                rds = c.datas()
                D = c.D.copy()
                out, err = guarded(lambda: ops.do_redistribute_move(rds[0], rds[1:], D, c.d, c.C, c.L, st, lev, lvl), 10)
                if err:
                    return tag, err
                if [tuple(rd.route) for rd in rds] != list(c.routes) or not (D == c.D).all():
                    return tag, "changed its input"
                if len(out) != len(rest) + 2:
                    return tag, "returned %r" % (out,)
                if out[-1] is None:
                    if any(x is not None for x in out):
                        return tag, "returned %r" % (out,)
                    if lev is None and not can_fail:
                        return tag, "refused although every customer fits"
                    continue
                if not (isinstance(out[0], RouteData) and out[0].is_empty()):
                    return tag, "left something on the emptied route: %s" % (out[0],)
                w, got = check_rds(c, out[1:-1], served)
                if w:
                    return tag, w
                true = val(got)
                if abs(true - out[-1]) > 1e-7:
                    return tag, "reported a change of %r, it is %r" % (out[-1], true)
                if lev is not None and true > lev + 1e-7:
                    return tag, "reported a change of %r, which does not beat the required %r" % (true, lev)
                if lev is None:
                    if loose is None and not any(tuple(got) in o for o in outs):
                        loose = [redistribute_outcomes(c, x, y, st, True) for x in cs for y in rs]
                    if loose is not None and canon(got) not in {canon(s) for o in loose for s in o if s is not None}:
                        return tag, "returned %r, not a result of inserting in turn" % (got,)
                    if true > worst + 1e-7:
                        return tag, "reported a change of %r, an allowed order gives %r" % (true, worst)
    return None


def limits(D, routes, dense, lean):
    """(d, C, L) on the borders for these routes."""
    Dl = D.tolist()
    cost = lambda r: sum(Dl[a][b] for a, b in zip(r, r[1:]))
    n = len(D) - 1
    here = max(cost(r) for r in routes)
    cs = set()
    for k in (1, 2, 3):
        for p in itertools.permutations(range(1, n + 1), k):
            if p <= p[::-1]:
                cs.add(cost((0,) + p + (0,)))
    up = sorted(x for x in cs if x > here + 1e-9)
    Ls = [None] + ([here] if here > 0 else []) + up[:2 if not dense else 4]
    pats = [[0] + [1] * n, [0] + [1 + i % 2 for i in range(n)], [0.0] + [0.1 * (1 + i % 3) for i in range(n)]]
    if lean:
        pats = pats[1:2]
        Ls = Ls[:3]
    if dense:
        pats.append([0] + [1 + (i + 1) % 2 * 2 for i in range(n)])
    out = [(None, None, L) for L in Ls]
    for d in pats:
        m = max(sum(d[x] for x in r) for r in routes)
        step = 0.1 if isinstance(d[1], float) else 1
        for C in (m, round(m + step, 6)):
            out.append((d, C, None))
            out.append((d, C, Ls[-1]))
            if dense:
                out += [(d, C, L) for L in Ls[1:-1]]
    return out


def one(D, routes, dense, rec, lean):
    routes = [tuple(r) for r in routes]
    for d, C, L in limits(D, routes, dense, lean):
        c = Case(D, d, C, L, routes)
        rec.state((D.tobytes(), D.dtype.kind, tuple(routes), repr((d, C, L))))
        w = judge(c, rec)
        if w:
            rec.fail({"D": D, "d": d, "C": C, "L": L, "routes": [list(r) for r in routes], "tag": list(w[0])},
                     "%s strategy=%s best_delta=%r on routes %r d=%r C=%r L=%r: %s; D=%r" % (w[0] + (routes, d, C, L, w[1], D.tolist())))
        rec.outcome("%d routes C=%s L=%s" % (len(routes), C is not None, L is not None))


def judge(c, rec=None):
    if len(c.routes) == 2:
        for name in nb.NB2:
            if rec:
                rec.step(8); rec.valid(8)
            w = neighbourhood_op(c, name)
            if w:
                return w
        if rec:
            rec.step(12); rec.valid(12)
        w = insert_op(c)
        if w:
            return w
    else:
        if rec:
            rec.step(8); rec.valid(8)
        w = neighbourhood_op(c, "do_chain_move")
        if w:
            return w
    if rec:
        rec.step(16); rec.valid(16)
    return redistribute_op(c)


def groups(n, k, one_label=False):
    """All ordered groups of k routes serving n customers (k-1 may be empty receivers: not here)."""
    for sizes in itertools.product(range(1, n + 1), repeat=k):
        if sum(sizes) != n:
            continue
        for perm in ([tuple(range(1, n + 1))] if one_label else itertools.permutations(range(1, n + 1))):
            out, at = [], 0
            for s in sizes:
                out.append((0,) + perm[at:at + s] + (0,)); at += s
            yield out


def cases(src):
    kind = src[0]
    if kind == "grid":
        _, n, dep, wk, first = src
        for pts in I.grid(n, (dep,)):
            if pts[1] != first:
                continue
            for p, wt in I.kinds(pts, (wk,)):
                D = ref.matrix(p, wt)
                for k in (2, 3):
                    for g in groups(n, k):
                        yield D, g
                if n <= 2:       # an empty receiving route
                    yield D, [(0,) + tuple(range(1, n + 1)) + (0,), (0, 0)]
    elif kind == "matrix":
        _, n, alpha, pre = src
        m = (n + 1) * n // 2
        iu = np.triu_indices(n + 1, 1)
        for rest in itertools.product(alpha, repeat=m - len(pre)):
            D = np.zeros((n + 1, n + 1), dtype=int)
            D[iu] = pre + rest
            D = D + D.T
            for k in (2, 3):
                for g in groups(n, k, True):
                    yield D, g
    elif kind == "layout":
        _, name, wk, part = src
        for p, wt in I.kinds(I.LAYOUTS[name], (wk,)):
            D = ref.matrix(p, wt)
            n = len(p) - 1
            i = 0
            for k in (2, 3):
                for g in groups(n, k):
                    # a route and its reverse are the same for these operators up to direction
                    if any(len(r) > 3 and r[1] > r[-2] for r in g[1:]):
                        continue
                    i += 1
                    if i % 8 == part:
                        yield D, g


def shards(tier):
    q = tier == "quick"
    for n in (1, 2, 3) if q else (1, 2, 3, 4):
        for dep in ((1, 1), (0, 0)):
            for wk in ("EXACT_2D", "EUC_2D", "EUC_2Dx7"):
                if q and n > 2 and wk != ("EXACT_2D" if dep == (1, 1) else "EUC_2D"):
                    continue
                for first in I.G3:
                    yield (tier, ("grid", n, dep, wk, first))
    for pre in itertools.product((1, 2, 4), repeat=2):
        yield (tier, ("matrix", 3, (1, 2, 4), pre))
    al = (1, 4) if q else (1, 2, 4)
    for pre in itertools.product(al, repeat=5):
        yield (tier, ("matrix", 4, al, pre))
    for name in ("ring5", "line5") if q else ("ring5", "line5", "coin5", "clus6", "far6"):
        for wk in ("EXACT_2D", "EUC_2D"):
            for part in range(8):
                yield (tier, ("layout", name, wk, part))


def lean(src):
    """Fewer limits in the quick tier for these."""
    return src[:2] == ("matrix", 4) or src[0] == "layout" or src[:3] == ("grid", 3, (0, 0))


def run(shard, rec):
    tier, src = shard
    D = None
    for D, g in cases(src):
        one(D, g, tier != "quick", rec, tier == "quick" and lean(src))
    if D is not None:
        rec.sample({"routes": g, "D": D.tolist()})


def replay(case):
    c = Case(case["D"], case["d"], case["C"], case["L"], case["routes"])
    w = judge(c)
    return "%s: %s" % w if w else None
