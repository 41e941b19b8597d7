"""P09: route-first cluster-second splits the giant tour optimally."""
import itertools, functools
import numpy as np
from vmc import ref, greedy as G, instances as I, feascheck as F
from vmc.checks.p06 import Ctx, show
from verypy.classic_heuristics import rfcs
from verypy.tsp_solvers.tsp_solver_ropt import solve_tsp_2opt, solve_tsp_3opt

from vmc.checks.p06 import cases as base, limit_shards

LEVEL = "model_checking"
TECHNIQUE = "for each enumerated problem and giant tour every cut of the cyclic tour is costed; the plan of the real code must be one of least cost (with exact route solvers plugged in) or cost no more than it (with the default ones)"
NOTE = ("Complete within the bounds. With a route limit only distances obeying the triangle inequality are used, so a longer piece of the tour never becomes feasible again. "
        "The default giant tour is whatever the bundled TSP solver returns (P22).")
BOUNDS = {"quick": "every multiset of 2-3 customers on a 3x3 grid and every cyclic giant tour, x demands {1,2}^n x all C and L levels, all 4x4 matrices over {1,2,4} and {0,1,3}, 5x5 matrices over {1,4} (a third), layouts of 5-8 customers (one with customers at the depot and demands {1,2,4}^6) with giant tours by number, by angle and interleaved; both objectives; exact plug-in solvers and the default ones; every route limit at which another route becomes feasible, on 5-7 layouts of 5-6 customers in general position",
          "thorough": "as quick with 4 customers on the grid, all 5x5 matrices over {1,4}, all ten layouts"}
ASSUMPTIONS = ["symmetric distances", "at least two customers"]


def exact(P):
    @functools.lru_cache(None)
    def f(s):
        best = None
        for p in itertools.permutations(sorted(s)):
            if p[0] <= p[-1]:
                c = P.cost(p)
                if best is None or c < best[0] - 1e-12:
                    best = (c, p)
        return best

    def solver(D, nodes):
        s = frozenset(int(x) for x in nodes if x)
        c, p = f(s)
        return [0] + list(p) + [0], c
    return f, solver


def cuts(tour, ok):
    """Every cut of the cyclic tour into pieces whose prefixes all pass ok(piece)."""
    n = len(tour)
    seen = set()
    for r in range(n):
        t = tour[r:] + tour[:r]

        def rec(i, acc):
            if i == n:
                k = frozenset(acc)
                if k not in seen:
                    seen.add(k)
                    yield tuple(acc)
                return
            for j in range(i + 1, n + 1):
                piece = t[i:j]
                if not ok(piece):
                    break
                for x in rec(j, acc + [piece]):
                    yield x
        for x in rec(0, []):
            yield x


def judge(c, tours):
    P = c.P
    n = P.n
    f, solver = exact(P)

    def load(p):
        return not P.C or sum(P.d[x] for x in p) <= P.C + 1e-9

    def ok(p):
        return load(p) and (not P.L or f(frozenset(p))[0] <= P.L + 1e-9)

    two = {}

    def twoopt(p):       # as the heuristic builds a piece: append, then improve
        if p not in two:
            base = twoopt(p[:-1])[1][:-1] if len(p) > 1 else [0]
            r, cost = solve_tsp_2opt(c.D, list(base) + [p[-1]])
            two[p] = (cost, list(r))
        return two[p]

    def ok2(p):
        return load(p) and (not P.L or twoopt(p)[0] <= P.L + 1e-9)

    for tour in tours:
        alls = [(sum(f(frozenset(p))[0] for p in cut), len(cut)) for cut in cuts(tour, ok)]
        alls2 = [(sum(twoopt(p)[0] for p in cut), len(cut)) for cut in cuts(tour, ok2)]
        for closed in (True, False):
            tl = sum(P.D[a][b] for a, b in zip(tour, tour[1:] + tour[:1]))
            giant = lambda D, nodes: (list(tour) + ([tour[0]] if closed else []), tl)
            for minK in (False, True):
                t = "giant tour %r minimize_K=%s: " % (tour, minK)
                key = (lambda x: (x[1], round(x[0], 7))) if minK else (lambda x: (round(x[0], 7),))
                if closed or n == 2:
                    plan, err = c.call(lambda D, d, C, L: rfcs.route_first_cluster_second_init(D, d, C, L, minK, giant, solver, solver))
                    if err:
                        return t + err
                    if not is_cut(plan, tour):
                        return t + "the routes %r are not consecutive pieces of it" % (plan,)
                    got = key((sum(P.cost(r) for r in plan), len(plan)))
                    want = min(map(key, alls))
                    if got != want:
                        return t + "%r has objective %r, the best cut %r" % (plan, got, want)
                plan, err = c.call(lambda D, d, C, L: rfcs.route_first_cluster_second_init(D, d, C, L, minK, giant))
                if err:
                    return t + err
                if not is_cut(plan, tour):
                    return t + "the routes %r are not consecutive pieces of it" % (plan,)
                got = key((sum(P.cost(r) for r in plan), len(plan)))
                want = min(map(key, alls2))
                if got > want:
                    return t + "default solvers: %r has objective %r, the best cut %r" % (plan, got, want)
    # as called by the command line
    al = F.algo("rfcs")
    tour = tuple(int(x) for x in rfcs.solve_tsp_intial(c.D, list(range(1, n + 1)))[0])[:n] if hasattr(rfcs, "solve_tsp_intial") else None
    for minK in (False, True):
        plan, err = c.call(lambda D, d, C, L: al(None, D, d, C, L, None, None, False, minK))
        t = "rfcs minimize_K=%s: " % minK
        if err:
            return t + err
        if tour:
            key = (lambda x: (x[1], round(x[0], 7))) if minK else (lambda x: (round(x[0], 7),))
            if not is_cut(plan, tour):
                return t + "the routes %r are not consecutive pieces of the giant tour %r" % (plan, tour)
            got = key((sum(P.cost(r) for r in plan), len(plan)))
            want = min(key((sum(twoopt(p)[0] for p in cut), len(cut))) for cut in cuts(tour, ok2))
            if got > want:
                return t + "%r has objective %r, the best cut of %r %r" % (plan, got, tour, want)
    return None


def is_cut(plan, tour):
    n = len(tour)
    pos = {x: i for i, x in enumerate(tour)}
    for r in plan:
        ps = sorted(pos[x] for x in r)
        if not any(all(((s + k) % n) in ps for k in range(len(ps))) for s in ps):
            return False
    return True


def giant_tours(n, full):
    if full:
        for p in itertools.permutations(range(2, n + 1)):
            if p[0] <= p[-1]:
                yield (1,) + p
    else:
        yield tuple(range(1, n + 1))
        yield tuple(range(1, n + 1, 2)) + tuple(range(2, n + 1, 2))


NEAR = [(0, 0), (6, 0), (5, 0), (5, 0), (0, 0), (0, 0), (6, 0)]     # some at the depot: their routes are free


def cases(src):
    if src[0] == "near":
        D = ref.matrix(NEAR, "EXACT_2D")
        for rest in itertools.product((1, 2, 4), repeat=4):
            for C in (5, 6):
                yield D, [0] + list(src[1] + rest), C, None
        return
    for x in base(src):
        yield x


def shards(tier):
    q = tier == "quick"
    for name in ("ring5", "line5", "clus6", "far6", "spir7") if q else sorted(I.LAYOUTS):
        for wk in ("EXACT_2D", "EUC_2D"):
            for f in (1, 2):
                for part in range(8):
                    yield (tier, ("layout", name, wk, (1, 2), False, f), part, 8 if not q else 56)
    for n in (2, 3) if q else (2, 3, 4):
        for dep in ((1, 1), (0, 0)):
            for wk in ("EXACT_2D", "EUC_2D", "EUC_2Dx7"):
                for first in I.G3:
                    if q and n == 3 and wk != ("EXACT_2D" if dep == (1, 1) else "EUC_2Dx7"):
                        continue
                    yield (tier, ("grid", n, dep, wk, (1, 2), n <= 2, first), 0, 2 if q and n == 3 else 1)
    for x in limit_shards(tier):
        yield x
    for pre in itertools.product((1, 2, 4), repeat=2):
        yield (tier, ("near", pre), 0, 1)
    for al in ((1, 2, 4), (0, 1, 3)):
        for pre in itertools.product(al, repeat=2):
            yield (tier, ("matrix", 3, al, pre, 1), 0, 1)
    for pre in itertools.product((1, 4), repeat=4):
        yield (tier, ("matrix", 4, (1, 4), pre, 3 if q else 1), 0, 1)


def run(shard, rec):
    tier, src, part, parts = shard
    for i, (D, d, C, L) in enumerate(cases(src)):
        if i % parts != part:
            continue
        rec.state((D.tobytes(), D.dtype.kind, repr((d, C, L))))
        c = Ctx(D, d, C, L)
        tours = list(giant_tours(len(D) - 1, len(D) <= 5))
        w = judge(c, tours)
        rec.step(c.runs); rec.valid(c.runs)
        rec.outcome("%s n=%d C=%s L=%s" % (src[0], len(D) - 1, C is not None, L is not None))
        if w:
            rec.fail({"D": D, "d": d, "C": C, "L": L, "tours": tours}, "%s on d=%r C=%r L=%r D=%r" % (w, d, C, L, D.tolist()))
        if i == part:
            rec.sample({"D": D.tolist(), "d": d, "C": C, "L": L})


def replay(case):
    return judge(Ctx(case["D"], case["d"], case["C"], case["L"]), [tuple(t) for t in case["tours"]])
