"""P36: the sweep variants start where they say, keep the best start, and the look-ahead follows its rule."""
import functools, itertools, math
import numpy as np
from vmc import ref, greedy as G, instances as I, feascheck as F
from vmc.checks.p06 import Ctx, show
from verypy.classic_heuristics import wren_holliday_sweep as wh, gillet_miller_sweep as gm, sweep as sw

LEVEL = "model_checking"
TECHNIQUE = "for each enumerated problem all runs of the real code with one start and one direction are made, and each run with several starts must be the best of those; the starts themselves are computed from the geometry; the Gillett-Miller sweep is checked against a nondeterministic transition system of its published steps, explored exhaustively"
NOTE = ("Complete within the bounds. Where the geometry leaves the start open (customers balanced around the depot, equal angles) the run is not judged. "
        "The transition system is compared on problems with both limits (steps 9 and 13 ask for both) and at least 6 customers; when the sweep goes clockwise either reading of 'the customer closest to the next route' is allowed.")
BOUNDS = {"quick": "5-7 layouts in general position of 5-7 customers plus 3 with equal angles and distances, 3-4 capacities and 3-12 route limits each; every start, cw, ccw and both, both objectives, full and first convergence",
          "thorough": "as quick, with more capacities and every second critical route limit"}
ASSUMPTIONS = ["symmetric planar distances", "clockwise and counterclockwise as seen with the y axis pointing up",
               "the starts of Wren and Holliday: the customer next in the direction opposite to the demand weighted mean position (or 1-3 quarter turns from it)"]

MORE = {
    "gen7a": [(15, 13), (4, 21), (28, 27), (30, 6), (11, 2), (1, 9), (19, 29), (24, 17)],
    "gen7b": [(3, 4), (12, 9), (21, 3), (27, 16), (18, 22), (7, 28), (14, 30), (26, 29)],
    "gen7c": [(14, 16), (17, 3), (23, 11), (29, 20), (20, 27), (9, 25), (2, 18), (6, 8)],
    "gen6c": [(13, 15), (18, 4), (26, 12), (24, 25), (11, 28), (1, 19), (5, 6)],
    "gen6d": [(10, 10), (12, 22), (25, 15), (23, 3), (3, 1), (2, 13), (19, 28)],
    "gen8a": [(15, 14), (20, 1), (29, 7), (26, 18), (22, 30), (12, 24), (3, 27), (1, 12), (8, 5)],
}
ALL = dict(I.GENERAL, **MORE)
EPS = 1e-9


def one_way(c, what, f):
    plan, err = c.call(f)
    return plan, (what + ": " + err if err else None)


def best(P, plans, minK):
    m = min(P.key(p, minK) for p in plans)
    return {p for p in plans if P.key(p, minK) == m}


def angles(pts):
    x0, y0 = pts[0]
    return {i: math.atan2(p[1] - y0, p[0] - x0) for i, p in enumerate(pts) if i}


def wh_starts(pts, d, di, quarters):
    """Positions in the order of angles of the documented starts, None where open."""
    phi = angles(pts)
    order = sorted(phi, key=phi.get)
    if any(phi[b] - phi[a] < 1e-7 for a, b in zip(order, order[1:])):
        return None
    w = d if d else [1] * len(pts)
    mx = sum(w[i] * (p[0] - pts[0][0]) for i, p in enumerate(pts) if i)
    my = sum(w[i] * (p[1] - pts[0][1]) for i, p in enumerate(pts) if i)
    if math.hypot(mx, my) < 1e-7:
        return None
    base = math.atan2(-my, -mx)
    out = []
    for q in range(quarters):
        t = base + q * math.pi / 2
        while t > math.pi:
            t -= 2 * math.pi
        # a direction along the cut of the angles may be read as either end
        if abs(abs(t) - math.pi) < 1e-7 or any(abs(phi[i] - t) < 1e-7 for i in phi):
            return None
        after = [k for k, i in enumerate(order) if phi[i] > t]
        k = after[0] if after else 0
        out.append(k if di == "ccw" else (k - 1) % len(order))
    return out


def judge_wh(pts, c):
    P, n = c.P, c.P.n
    init = wh.wren_holliday_init
    for full in (True, False):
        runs = {}
        for minK in (False, True):
            for di in ("cw", "ccw"):
                for s in range(n):
                    plan, err = one_way(c, "Wren-Holliday start %d %s minimize_K=%s full_convergence=%s" % (s, di, minK, full),
                                        lambda D, d, C, L: init(list(pts), D, d, C, L, minK, s, di, full))
                    if err:
                        return err
                    runs[di, s, minK] = plan
        for minK in (False, True):
            for di in ("cw", "ccw", "both"):
                dirs = ("cw", "ccw") if di == "both" else (di,)
                asks = [("every start", wh.BEST_ALTERNATIVE, {x: range(n) for x in dirs})]
                if di == "both":
                    asks += [("start %d" % s, s, {x: [s] for x in dirs}) for s in (0, n - 1)]
                asks += [("start %d" % (n + 1), n + 1, {x: [(n + 1) % n] for x in dirs})]
                asks += [(nm, seed, {x: wh_starts(pts, c.d, x, q) for x in dirs}) for nm, seed, q in
                         (("the least dense direction", wh.LEAST_DENSE, 1), ("four directions", wh.BEST_OF_FOUR, 4))]
                for nm, seed, starts in asks:
                    plan, err = one_way(c, "Wren-Holliday from %s, %s, minimize_K=%s full_convergence=%s" % (nm, di, minK, full),
                                        lambda D, d, C, L: init(list(pts), D, d, C, L, minK, seed, di, full))
                    if err:
                        return err
                    if None in starts.values():
                        continue
                    may = best(P, [runs[x, s, minK] for x in dirs for s in starts[x]], minK)
                    if plan not in may:
                        return "Wren-Holliday from %s, %s, minimize_K=%s full_convergence=%s: %r is not the best of the runs from positions %r, which is %s" % (
                            nm, di, minK, full, plan, {x: list(s) for x, s in starts.items()}, show(may))
    return None


def judge_gm(pts, c):
    P, n = c.P, c.P.n
    init = gm.gillet_miller_init
    phi = angles(pts)
    rho = {i: math.hypot(p[0] - pts[0][0], p[1] - pts[0][1]) for i, p in enumerate(pts) if i}
    near = [i for i in rho if rho[i] <= min(rho.values()) + 1e-7]
    first = [i for i in phi if phi[i] <= min(phi.values()) + 1e-7]
    runs = {}
    for di in ("cw", "ccw"):
        for s in range(1, n + 1):
            plan, err = one_way(c, "Gillett-Miller from customer %d %s" % (s, di),
                                lambda D, d, C, L: init(list(pts), D, d, C, L, False, di, s))
            if err:
                return err
            runs[di, s] = plan
    for minK in (False, True):
        for di in ("cw", "ccw", "both"):
            dirs = ("cw", "ccw") if di == "both" else (di,)
            asks = [("every customer", sw.BEST_ALTERNATIVE, [list(range(1, n + 1))]),
                    ("the closest customer", sw.CLOSEST_TO_DEPOT, [[x] for x in near]),
                    ("the smallest angle", sw.SMALLEST_ANGLE, [[x] for x in first])]
            if di == "both":
                asks += [("customer %d" % s, s, [[s]]) for s in (1, n)]
            for nm, seed, alts in asks:
                plan, err = one_way(c, "Gillett-Miller from %s, %s, minimize_K=%s" % (nm, di, minK),
                                    lambda D, d, C, L: init(list(pts), D, d, C, L, minK, di, seed))
                if err:
                    return err
                may = set()
                for a in alts:
                    may |= best(P, [runs[x, s] for x in dirs for s in a], minK)
                if plan not in may:
                    return "Gillett-Miller from %s, %s, minimize_K=%s: %r is not the best of its runs, which is %s" % (nm, di, minK, plan, show(may))
    f = F.algo("gm")
    for minK in (False, True):
        plan, err = c.call(lambda D, d, C, L: f(list(pts), D, d, C, L, None, None, False, minK))
        if err:
            return "gm minimize_K=%s: %s" % (minK, err)
        may = best(P, list(runs.values()), minK)
        if plan not in may:
            return "gm minimize_K=%s: %r is not the best of all sweeps, which is %s" % (minK, plan, show(may))
    return rule(pts, c, runs)


# ---- the Gillett-Miller sweep as a transition system -------------------------------------

@functools.lru_cache(None)
def tours(k):
    """All tours over 0..k-1 as index arrays and, for every pair, the number of edges only one has."""
    T = [(0,) + p for p in itertools.permutations(range(1, k)) if k < 4 or p[0] < p[-1]]
    eid = {}
    for a in range(k):
        for b in range(a, k):
            eid[a, b] = eid[b, a] = len(eid)
    inc = np.zeros((len(T), max(eid.values()) + 1), dtype=np.int16)
    for r, t in enumerate(T):
        for a, b in zip(t, t[1:] + (0,)):
            inc[r, eid[a, b]] = 1
    return np.array(T), k - inc @ inc.T if k > 2 else np.zeros((len(T), len(T)))


class TSP:
    """The costs a 3-optimal tour or path may have."""

    def __init__(self, D):
        self.D = np.asarray(D, dtype=float)
        self.memo = {}

    def costs(self, nodes, last=None):
        """Of a tour over nodes (with the depot), or of a path from the depot through them to last."""
        k = (frozenset(nodes), last)
        if k not in self.memo:
            self.memo[k] = self._costs(sorted(nodes), last)
        return self.memo[k]

    def _costs(self, nodes, last):
        ids = [0] + nodes + ([] if last is None else [last])       # last may be the depot once more
        S = self.D[np.ix_(ids, ids)].copy()
        if last is not None:
            S[0, -1] = S[-1, 0] = 0.0
        if len(ids) > 8:
            raise Unbounded()
        T, diff = tours(len(ids))
        cost = S[T, np.roll(T, -1, axis=1)].sum(axis=1)
        out = []
        for i in np.argsort(cost, kind="stable"):
            if not ((cost < cost[i] - 1e-6) & (diff[i] <= 3)).any():
                if not out or cost[i] - out[-1] > 1e-7:
                    out.append(float(cost[i]))
        return out


class Unbounded(Exception):
    pass


class Oracle:
    """Depth first enumeration of all sequences of choices."""

    def __init__(self):
        self.path, self.pos = [], 0

    def pick(self, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        if self.pos == len(self.path):
            self.path.append([0, len(options)])
        k = self.path[self.pos][0]
        self.pos += 1
        return options[k]

    def less(self, a, b):
        """Is a < b, either way when they are equal."""
        if abs(a - b) < 1e-7:
            return self.pick((True, False))
        return a < b

    def nxt(self):
        while self.path and self.path[-1][0] + 1 == self.path[-1][1]:
            self.path.pop()
        if not self.path:
            return False
        self.path[-1][0] += 1
        self.pos = 0
        return True


def gm_plans(P, ring, rho, phi, start, step, tsp, limit=4000):
    """Every partition the steps of Gillett and Miller allow, or None when too many."""
    out, o = set(), Oracle()
    for _ in range(limit):
        out.add(gm_one(P, ring, rho, phi, start, step, tsp, o))
        if not o.nxt():
            return out
    return None


def gm_one(P, ring, rho, phi, start, step, tsp, o):
    n = len(ring)
    d, C, L, D = P.d, P.C, P.L, P.D
    at = {x: k for k, x in enumerate(ring)}
    avr = sum(rho.values()) / n
    seq = [ring[(start + step * k) % n] for k in range(n)]
    # angles measured from the start, growing in the direction of the sweep
    fwd = {}
    for x in seq:
        a = step * (phi[x] - phi[seq[0]])
        fwd[x] = a + 2 * math.pi if a < 0 and x != seq[0] else a
    # clockwise the library measures them so that they jump at the cut of the angles
    jump = {x: fwd[x] - (4 * math.pi if phi[x] > phi[seq[0]] else 0) for x in seq}
    keys = [{x: -fwd[x] for x in seq}] + ([fwd, jump] if step < 0 else [])
    routed, blocked = set(), set()
    routes, cur = [], []
    pos = start

    def load(s):
        return sum(d[x] for x in s)

    def within(s):
        if load(s) > C + 1e-9:
            return False, None
        v = o.pick(tsp.costs(s))
        return v <= L + 1e-9, v

    def nearest(x, skip=()):
        c = [y for y in ring if y not in routed and y not in skip]
        if not c:
            return None
        m = min(D[x][y] for y in c)
        return o.pick([y for y in c if D[x][y] <= m + 1e-9])

    def ahead(pos, skip=None):
        """The next customer from pos that can be considered."""
        for k in range(1, n + 1):
            x = ring[(pos + step * k) % n]
            if x not in routed and x not in blocked and x != skip:
                return x
        return None

    J = ring[start]
    for _ in range(60 * n):
        ok = J is not None and within(cur + [J])[0]
        if ok:
            cur.append(J)
            routed.add(J)
        else:
            done = True
            if J is not None and cur and load(cur + [J]) <= C + 1e-9 and len(routed | blocked) == n - 1 and o.pick((False, True)):
                # the last one left was put in before the route limit was asked for: it is
                # only taken out again, and the sweep goes on behind it
                routes.append(frozenset(cur))
                pos, cur, blocked = at[J], [], set()
                J = ahead(pos)
                continue
            if J is not None and cur and load(cur + [J]) <= C + 1e-9:
                J2 = ahead(at[J], J)
                back = []
                for k in range(1, n) if J2 is not None else ():
                    x = ring[(at[J2] - step * k) % n]
                    if x in cur or x == J:
                        back.append(x)
                        if within([y for y in cur + [J] if y not in back])[0]:
                            break
                if back and back != [J] and len(back) <= len(cur) and o.pick((False, True)):
                    # the route limit was asked for only after J was put in, and customers
                    # put in by the look-ahead that lie further on are taken out first
                    cur = [y for y in cur + [J] if y not in back]
                    routed.add(J)
                    routed -= set(back)
                    J = back[-1]
            if J is not None and cur:
                done, put, drop = improve(P, ring, rho, keys, avr, at, tsp, o, J, cur, routed, step, n, within, nearest)
                if not done:
                    cur = [x for x in cur if x not in drop] + put
                    routed |= set(put)
                    for x in drop:
                        routed.discard(x)
                        blocked.add(x)
            if done:
                routes.append(frozenset(cur))
                if sum(map(len, routes)) >= n:
                    return frozenset(routes)
                cur, blocked = [], set()
                if J is not None:
                    pos = at[J]
                    cur.append(J)
                    routed.add(J)
        if J is not None:
            pos = at[J]
        J = ahead(pos)
        if J is None:
            blocked = set()
            if len(routed) < n:
                # nothing but passed over customers left: the route is complete
                routes.append(frozenset(cur))
                cur = []
                J = ahead(pos)
            else:
                routes.append(frozenset(cur))
                return frozenset(routes)
    raise Unbounded()


def improve(P, ring, rho, keys, avr, at, tsp, o, J, cur, routed, step, n, within, nearest):
    """Steps 8-15: is the route complete, and if not, what is put in and taken out."""
    D = P.D
    stop = (True, (), ())
    # step 8: the customer to give to another route
    kii = set()
    for key in keys:
        v = {x: rho[x] + key[x] * avr for x in cur}
        m = min(v.values())
        kii |= {x for x in cur if v[x] <= m + 1e-7}
    K = o.pick(sorted(kii))
    before = ring[(at[J] - step) % n]
    X = nearest(before)
    Y = nearest(X, (X,))
    # step 9
    swap = [x for x in cur if x != K] + [X]
    ok, D2 = within(swap)
    if not ok:
        return stop
    chain = [x for x in (ring[(at[J] + step * k) % n] for k in range(5)) if x not in routed]
    if X not in chain:
        return stop
    end = ring[(at[J] + step * 5) % n]
    if end in routed:
        end = 0
    elif end in chain:
        raise Unbounded()
    D1 = o.pick(tsp.costs(cur))
    D3 = o.pick(tsp.costs(chain, end))
    D4 = o.pick(tsp.costs([x for x in chain if x != X] + [K], end))
    if not o.less(D1 + D3, D2 + D4):
        return False, [X], [K] + ([J] if X != J else [])
    # step 13
    if Y is None or Y not in chain:
        return stop
    ok, D5 = within(swap + [Y])
    if not ok:
        return stop
    D6 = o.pick(tsp.costs([x for x in chain if x not in (X, Y)] + [K], end))
    if o.less(D1 + D3, D5 + D6):
        return stop
    return False, [X, Y], [K] + ([J] if J not in (X, Y) else [])


def rule(pts, c, runs):
    P, n = c.P, c.P.n
    if n < 6 or not P.C or not P.L:
        return None
    phi = angles(pts)
    ring = sorted(phi, key=phi.get)
    if any(phi[b] - phi[a] < 1e-7 for a, b in zip(ring, ring[1:])):
        return None
    rho = {i: math.hypot(p[0] - pts[0][0], p[1] - pts[0][1]) for i, p in enumerate(pts) if i}
    tsp = TSP(c.D)
    for (di, s), plan in sorted(runs.items()):
        try:
            may = gm_plans(P, ring, rho, phi, ring.index(s), 1 if di == "ccw" else -1, tsp)
        except Unbounded:
            c.open = getattr(c, "open", 0) + 1
            continue
        if may is None:
            c.open = getattr(c, "open", 0) + 1
            continue
        got = frozenset(frozenset(r) for r in plan)
        c.ruled = getattr(c, "ruled", 0) + 1
        if got not in may:
            return "Gillett-Miller from customer %d %s: routes %r are not a result of the published steps, which allow %r" % (
                s, di, sorted(map(sorted, got)), [sorted(map(sorted, m)) for m in may][:4])
    return None


JUDGES = {"wh": judge_wh, "gm": judge_gm}


def cases(name, wk, tier, off, parts):
    pts = ALL.get(name) or I.LAYOUTS[name]
    q = tier == "quick"
    D = ref.matrix(pts, wk)
    n = len(D) - 1
    crit = I.critical(D) if n <= 6 else None
    k = 0
    for a in range(2 if q else 5):
        d = [0] + [1 + (3 * i + n + a * (i % 3)) % 4 for i in range(n)]
        for C in sorted({max(max(d), sum(d) * x // 12) for x in ((4, 5, 7) if q else (3, 4, 5, 6, 7, 8))}) + [None]:
            if C is None and a:
                continue
            if crit:
                m = 6 if q else 40
                Ls = [crit[i * (len(crit) - 1) // m] + 0.5 for i in range(m + 1)]
            else:
                low = 2.0 * max(D[0])
                Ls = [low + 0.5 + i * low / (5 if q else 25) for i in range(5 if q else 25)]
            for L in [None] + Ls:
                if C is None and L is None:
                    continue
                if k % parts == off:
                    yield pts, D, d if C else (d if k % 2 else None), C, L
                k += 1


def shards(tier):
    q = tier == "quick"
    for name in sorted(ALL) + ["ring6", "clus6", "far6"]:
        for wk in ("EXACT_2D",) if q or name in ALL else ("EXACT_2D", "EUC_2D"):
            for algo in ("wh", "gm"):
                if algo == "wh" and name == "gen8a" and q:
                    continue
                for off in range(4 if q else 12):
                    yield (tier, name, wk, algo, off, 4 if q else 12)


def run(shard, rec):
    tier, name, wk, algo, off, parts = shard
    for pts, D, d, C, L in cases(name, wk, tier, off, parts):
        if algo == "wh" and tier == "quick" and len(d or pts) > 7 and (C, L) != (None, None) and int((L or 0) * 7) % 2:
            continue
        c = Ctx(D, d, C, L)
        rec.state(repr((name, wk, algo, d, C, L)))
        w = JUDGES[algo](pts, c)
        rec.step(c.runs)
        rec.valid(c.runs)
        rec.outcome("%s n=%d C=%s L=%s" % (algo, len(D) - 1, C is not None, L is not None))
        for k in ("ruled", "open"):
            for _ in range(getattr(c, k, 0)):
                rec.outcome("published steps %s" % k)
        if w:
            rec.fail({"algo": algo, "pts": pts, "D": D, "d": d, "C": C, "L": L}, "%s on points=%r %s d=%r C=%r L=%r" % (w, pts, wk, d, C, L))


def replay(case):
    return JUDGES[case["algo"]]([tuple(p) for p in case["pts"]], Ctx(case["D"], case["d"], case["C"], case["L"]))
