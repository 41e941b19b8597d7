"""P31: heuristics that try several settings try the documented ones, each by
its rule, and return the best."""
import itertools
import numpy as np
from vmc import ref, instances as I
from vmc.core import guarded
from verypy.classic_heuristics import (mole_jameson_insertion as mj, paessens_savings as pa, gaskell_savings as ga,
                                       nearest_neighbor as nn, tyagi_nearest_neighbor as ty, suppression_savings as sup)
from verypy.local_search import LSOPT, do_local_search
from verypy.local_search.intra_route_operators import do_2opt_move
from verypy.local_search.inter_route_operators import do_1point_move, do_redistribute_move
from verypy.routedata import RouteData
from verypy.util import without_empty_routes

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of demand vectors and critical limits over fixed layouts; a step by step model runs every documented setting separately and the real multi-setting run must return the best of their plans"
NOTE = ("Complete for the enumerated layouts, demand vectors and limits. Mole and Jameson's insertion is modelled independently, its refinement with the library's public local search; "
        "Paessens', Gaskell's and the parallel nearest neighbour's settings are run one by one on the real code (P06 and P07 judge single runs). "
        "Problems on which a single choice is tied are skipped and counted; settings whose plans tie may be returned either way.")
BOUNDS = {"quick": "8 layouts of 5-9 customers x 6-18 demand vectors over {1,2,3} each x C levels x L levels x both objectives; 6 strain criteria, M1 (layouts of at most 6)/M4, 'both', all numbers of routes, 3 grouping rules x 4 option settings; every first to eighth route limit at which another route becomes feasible, on 5-7 layouts of 5-6 customers in general position",
          "thorough": "as quick with 60-200 demand vectors per layout and M1 on all layouts"}
ASSUMPTIONS = ["planar exact distances without coincident customers", "numbers within 1e-9 of each other are tied"]

LAY = {
    "a5": [(2, 3), (29, 14), (11, 33), (-19, 22), (-27, -13), (13, -26)],
    "b5": [(5, 1), (38, 6), (34, 17), (16, 36), (-24, 5), (7, -31)],
    "a6": [(1, 2), (30, 9), (21, 27), (-6, 33), (-28, 12), (-20, -21), (15, -30)],
    "b6": [(0, 0), (12, 41), (17, 33), (35, 19), (28, -14), (-11, -26), (-36, 3)],
    "a7": [(3, -2), (33, 4), (26, 21), (9, 34), (-14, 28), (-31, 6), (-18, -25), (12, -29)],
    "b7": [(0, 0), (10, 11), (19, 27), (31, 22), (36, 5), (24, 9), (13, -8), (29, -17)],
    "a8": [(20, 21), (3, 5), (9, 31), (17, 40), (33, 37), (41, 24), (38, 9), (22, 2), (27, 29)],
    "a9": [(1, 1), (13, 8), (22, 3), (31, 12), (27, 25), (16, 21), (5, 29), (-9, 24), (-17, 10), (-12, -13)],
}


class Tie(Exception):
    pass


def canon(sol):
    return ref.canon([r for r in ref.split(sol) if r])


def key(sol, D, minK):
    rts = [r for r in ref.split(sol) if r]
    c = sum(ref.rcost(r, D) for r in rts)
    return (len(rts), c) if minK else (c,)


def same(a, b):
    return len(a) == len(b) and a[:-1] == b[:-1] and abs(a[-1] - b[-1]) < 1e-7


def settle(route, D):
    while True:
        r, delta = do_2opt_move(route, D, strategy=LSOPT.BEST_ACCEPT)
        if delta is None:
            return route
        route = r


# ---- Mole and Jameson --------------------------------------------------------

CRIT = {
    "proximity_ranking": [(0., 0.)],
    "min_strain": [(0., 1.)],
    "clarke_wright": [(2., 1.)],
    "gaskell": [(x, x - 1) for x in (1.25, 1.5, 1.75, 2.0)],
    "augumented_min_strain": [(x, 1.) for x in (0., .5, 1., 1.5, 2.)],
}
CRIT["all"] = sorted(set(sum(CRIT.values(), [])))


def insertion(D, d, C, L, lm, mm, last):
    """Routes one by one from the farthest customer; always the insertion of
    greatest strain first; routes kept 2-optimal; an insertion that costs more
    than serving the customer alone, or too long even after 2-opt, is refused.
    last: which of two mirrored insertions goes first."""
    n = len(D) - 1
    todo, out = set(range(1, n + 1)), []
    while todo:
        far = sorted(todo, key=lambda x: -D[0, x])
        if len(far) > 1 and D[0, far[0]] - D[0, far[1]] < 1e-9:
            raise Tie()
        r = [0, far[0], 0]
        todo.remove(far[0])
        cost, load, count = 2 * D[0, far[0]], d[far[0]] if C else 0, [0]
        queue = []

        def add(a, b):
            for u in sorted(todo):
                ex = D[a, u] + D[u, b] - D[a, b]
                if C and load + d[u] > C + 1e-9:
                    continue
                if L and cost + ex > L + 1e-9:
                    continue
                mst = D[a, u] + D[u, b] - mm * D[a, b]
                k = (mst - lm * D[0, u], mst, ex - 2 * D[0, u])
                count[0] += 1
                queue.append((k, count[0] * (-1 if last else 1), u, a, b))
        for a, b in zip(r, r[1:]):
            add(a, b)
        while queue:
            pick = min(queue, key=lambda q: (q[0][0], q[0][1], q[0][2], q[1]))
            k, _, u, a, b = pick
            if u not in todo or not any((x, y) == (a, b) for x, y in zip(r, r[1:])) or (C and load + d[u] > C + 1e-9):
                queue.remove(pick)
                continue
            for q in queue:     # strictly: the first entries that differ must differ clearly
                if q is not pick and q[2] in todo and q[2] != u and abs(q[0][0] - k[0]) < 1e-9 and abs(q[0][1] - k[1]) < 1e-9:
                    raise Tie()
                if q is not pick and q[2] == u and (q[3], q[4]) != (b, a) and abs(q[0][0] - k[0]) < 1e-9 and abs(q[0][1] - k[1]) < 1e-9:
                    raise Tie()
            queue.remove(pick)
            i = [j for j in range(len(r) - 1) if (r[j], r[j + 1]) == (a, b)][0]
            raw = r[:i + 1] + [u] + r[i + 1:]
            new = settle(list(raw), D)
            c = ref.rcost(tuple(new[1:-1]), D)
            gain = c - cost
            if gain - 2 * D[0, u] > 1e-9 or (L and c > L + 1e-9):
                continue
            if abs(gain - 2 * D[0, u]) < 1e-9:
                raise Tie()
            todo.remove(u)
            cost, load = c, load + (d[u] if C else 0)
            r = new
            if new != raw:
                del queue[:]
                for x, y in zip(r, r[1:]):
                    add(x, y)
            else:
                add(a, u); add(u, b)
        out.append(r)
    return [out[-1]] + out[:-1]


def refine(routes, D, d, C, L, minK):
    """Relocation and 2-opt, then spreading the route of least load over the
    others, until neither helps."""
    sol = [0] + sum([r[1:] for r in routes], [])
    while True:
        sol = without_empty_routes(sol)
        if not minK:
            sol = sol + [0]
        sol = without_empty_routes(do_local_search([do_1point_move, do_2opt_move], sol, D, d, C, L, LSOPT.BEST_ACCEPT))
        rds = RouteData.from_solution(sol, D, d)
        least = min(rds, key=lambda x: x.demand)
        rds.remove(least)
        if not minK:
            rds.append(RouteData())
        res = do_redistribute_move(least, rds, D, d, C, L, strategy=LSOPT.FIRST_ACCEPT, recombination_level=0)
        if res[-1] is None or not (minK or res[-1] < 0.0):
            return sol
        sol = RouteData.to_solution(res[:-1])


def mj_plans(D, d, C, L, minK, settings, wide):
    """Per setting the plans it may end in."""
    out = []
    for lm, mm in settings:
        got = {}
        for last in (False, True) if wide else (False,):
            rts = insertion(D, d, C, L, lm, mm, last)
            for order in itertools.islice(itertools.permutations(rts), 24 if wide else 1):
                for flip in (1, -1) if wide else (1,):
                    s = refine([r[::flip] for r in order], D, d, C, L, minK)
                    got[canon(s)] = key(s, D, minK)
        out.append(got)
    return out


def best_of(plan, k, cands):
    """The plan must be the best that some choice of one plan per setting gives."""
    if not any(plan in g for g in cands):
        return "which no setting leads to"
    for g in cands:
        if plan not in g and min(g.values()) == max(g.values()) and list(g.values())[0] < k[:-1] + (k[-1] - 1e-7,):
            return "but one setting leads to %r, which is better" % (list(g)[0],)
        if plan not in g and all(v < k[:-1] + (k[-1] - 1e-7,) for v in g.values()):
            return "but one setting leads to %r, which is better" % (list(g)[0],)
    return None


def judge_mj(D, d, C, L, rec):
    dd = d if C else None
    memo = {}

    def plans(minK, settings, wide):
        out = []
        for s in settings:
            k = (minK, s, wide)
            if k not in memo:
                memo[k], err = guarded(lambda: mj_plans(D, dd, C, L, minK, [s], wide)[0], 20)
                if err:
                    memo[k] = err
            if isinstance(memo[k], str):
                raise Tie()
            out.append(memo[k])
        return out
    for minK in (False, True):
        for name, settings in CRIT.items():
            rec.step(); rec.valid()
            sol, err = guarded(lambda: mj.mole_jameson_insertion_init(D.copy(), dd, C, L, minK, strain_criterion=name), 20)
            t = "Mole-Jameson criterion=%s minimize_K=%s: " % (name, minK)
            if err:
                return t + err
            plan = canon(sol)
            k = key(sol, D, minK)
            try:
                w = None
                for wide in (False, True):
                    w = best_of(plan, k, plans(minK, settings, wide))
                    if not w:
                        break
            except Tie:
                rec.outcome("tied")
                continue
            if w:
                return t + "%r, %s" % (plan, w)
    return None


# ---- settings that can be run one by one -------------------------------------

def judge_list(f, options, whole, D, minK, what, rec):
    """f(option) for each option, then for the whole."""
    keys = []
    for o in options:
        s, err = guarded(lambda: f(o), 30)
        rec.step()
        if err:
            return "%s %r: %s" % (what, o, err)
        keys.append((key(s, D, minK), o))
    s, err = guarded(lambda: f(whole), 60)
    rec.step(); rec.valid()
    if err:
        return "%s %r: %s" % (what, whole, err)
    b = min(keys)
    if not same(key(s, D, minK), b[0]):
        return "%s %r: objective %r, its best setting %r gives %r" % (what, whole, key(s, D, minK), b[1], b[0])
    return None


FOUR = [(1.0, 0.1), (1.0, 0.5), (1.4, 0.0), (1.4, 0.5)]


def judge_paessens(D, d, C, L, rec, m1):
    dd = d if C else None
    for minK in (False, True):
        for opt3 in (False, True):
            def f(o):
                return pa.paessens_savings_init(D.copy(), dd, C, L, minK, [o] if isinstance(o, tuple) else o, opt3)
            ks = []
            for o in FOUR:
                s, err = guarded(lambda: f(o), 30)
                if err:
                    return "Paessens %r: %s" % (o, err)
                ks.append((key(s, D, minK), o))
            best = min(k for k, _ in ks)
            tops = [o for k, o in ks if same(k, best)]
            first = tops[0]
            # several of the four may be equally good: the search continues around one of them
            want = []
            for g, h in tops:
                around = [(g - .1, h), (g + .1, h), (g, h - .1), (g, h + .1)]
                kk = [best]
                for o in around:
                    s, err = guarded(lambda: f(o), 30)
                    if err:
                        return "Paessens %r: %s" % (o, err)
                    kk.append(key(s, D, minK))
                want.append(min(kk))
            s, err = guarded(lambda: f("M4"), 60)
            rec.step(9); rec.valid()
            t = "Paessens M4 3-opt=%s minimize_K=%s: " % (opt3, minK)
            if err:
                return t + err
            if not any(same(key(s, D, minK), w) for w in want):
                return t + "objective %r, the best of the four (%r) and of the settings around it gives %r" % (key(s, D, minK), first, want)
            if m1 and not opt3:
                grid = [(float(g), float(h)) for g in np.linspace(.8, 2., 13) for h in np.linspace(0., 1., 11)]
                w = judge_list(f, grid, "M1", D, minK, "Paessens minimize_K=%s" % minK, rec)
                if w:
                    return w
    return None


def judge_gaskell(D, d, C, L, rec):
    dd = d if C else None
    for minK in (False, True):
        w = judge_list(lambda o: ga.gaskell_savings_init(D.copy(), dd, C, L, minK, savings_method=o), ["lambda", "pi"], "both", D, minK, "Gaskell minimize_K=%s" % minK, rec)
        if w:
            return w
    return None


def judge_pnn(D, d, C, L, rec):
    dd = d if C else None
    _, _, call = nn.get_pnn_algorithm()
    one, err = guarded(lambda: nn.nearest_neighbor_init(D.copy(), dd, C, L, emerging_route_count=1), 10)
    if err:
        return "nearest neighbour: " + err
    K = len([r for r in ref.split(one) if r])

    def f(o):
        if o == "auto":
            return call(None, D.copy(), dd, C, L, None, None, False, False)
        return nn.nearest_neighbor_init(D.copy(), dd, C, L, emerging_route_count=o)
    return judge_list(f, list(range(1, K + 1)), "auto", D, False, "parallel nearest neighbour", rec)


# ---- Tyagi -------------------------------------------------------------------

def judge_interchange(D, d, C, L, rec):
    """When a chain is full, the unrouted customer nearest its last one takes
    the place that raises the load most (without a capacity: shortens most)."""
    ch = getattr(ty, "route_end_interchange", None)
    if ch is None or not (C or L):
        return None
    for al in (False, True):
        bad = []

        def cb(r, rd, rl, DD, dd, CC, LL, sv, nnn):
            before = list(r)
            free = [c for c in range(1, len(D)) if not sv[c]]
            new = list(ch(r, rd, rl, DD, dd, CC, LL, sv, nnn, al))
            if bad or not free:
                return new
            dist = [D[before[-2], c] for c in free]
            near = [c for c, x in zip(free, dist) if abs(x - min(dist)) < 1e-9]
            spots = range(1, len(before) - 1) if al else sorted({1, len(before) - 2})
            ok = []
            for c in near:
                opts = []
                for i in spots:
                    x = before[:i] + [c] + before[i + 1:]
                    if C and sum(d[v] for v in x) > C + 1e-9 or L and ref.rcost(x, D) > L + 1e-6:
                        continue
                    g = d[c] - d[before[i]] if C else ref.rcost(before, D) - ref.rcost(x, D)
                    if g > 1e-9:
                        opts.append((g, x))
                ok += [x for g, x in opts if g > max(o[0] for o in opts) - 1e-9] or [before]
            if new not in ok:
                bad.append("interchange_all=%s: the full chain %r with %r unrouted became %r, the best exchange with the nearest gives %r" % (al, before, free, new, ok))
            return new
        for forbidden in [None] + list(range(1, len(D))):
            kw = {"add_only_to_end": True} if forbidden is None else {"forbidden_nodes": [forbidden]}
            s, err = guarded(lambda: nn.nearest_neighbor_init(D.copy(), list(d) if C else None, C, L, initialize_routes_with="closest", emerging_route_count=1, route_improvement_callback=cb, **kw), 10)
            rec.step(); rec.valid()
            if err or bad:
                return "Tyagi " + (err or bad[0])
    return None


def judge_tyagi(D, d, C, L, rec):
    """The grouping that is routed is the one the selection rule prefers."""
    w = judge_interchange(D, d, C, L, rec)
    if w:
        return w
    ch = getattr(ty, "route_end_interchange", None)
    if ch is None or not C:
        return None
    n = len(D) - 1
    for big in (False, True):
        for al in (False, True):
            cb = lambda r, rd, rl, D, d, C, L, sv, nnn: ch(r, rd, rl, D, d, C, L, sv, nnn, al)

            def group(forbidden=None):
                kw = {"add_only_to_end": True} if forbidden is None else {"forbidden_nodes": [forbidden]}
                return nn.nearest_neighbor_init(D.copy(), list(d), C, L, initialize_routes_with="closest", emerging_route_count=1, route_improvement_callback=cb, **kw)
            first, err = guarded(group, 10)
            if err:
                return "nearest neighbour chains with interchange: " + err
            sets0 = [frozenset(r) for r in ref.split(first) if r]
            K0 = len(sets0)
            lo = sum(d) - C * (int(np.ceil(sum(d) / float(C))) - 1)
            cand = []
            if min(d[1:]) > lo or any(len(s) == 1 for s in sets0):
                for c in range(1, n + 1):
                    if big and not (d[c] > .5 * C and D[0, c] < .5 * max(D[0, 1:])):
                        continue
                    s, err = guarded(lambda: group(c), 10)
                    if err:
                        return "nearest neighbour chains without n%d: %s" % (c, err)
                    if s is None:
                        continue
                    sets = [frozenset(r) for r in ref.split(s) if r]
                    if len(sets) + 1 <= K0:
                        cand.append((sets, c))

            def value(rule, sets, K):
                loads = [sum(d[x] for x in s) for s in sets]
                if rule == "balanced":
                    return (-float(np.std(loads)), float(np.mean(loads)))
                return (sum(loads) / float(K * C),)
            for rule in ("balanced", "max_demand"):
                v = [(value(rule, sets0, K0), set(sets0))] + [(value(rule, s, len(s) + 1), set(s) | {frozenset([c])}) for s, c in cand]
                top = max(x for x, _ in v)
                ok = [s for x, s in v if all(abs(a - b) < 1e-9 for a, b in zip(x, top)) or abs(x[0] - top[0]) < 1e-9]
                got, err = guarded(lambda: ty.tyagi_init(D.copy(), list(d), C, L, only_large_and_close_customer_single_routes=big,
                                                         try_interchange_with_all_group_customers=al, select_grouping=rule), 20)
                rec.step(); rec.valid()
                t = "Tyagi select_grouping=%s only_large_and_close=%s interchange_all=%s: " % (rule, big, al)
                if err:
                    return t + err
                have = {frozenset(r) for r in ref.split(got) if r}
                if have not in ok:
                    return t + "groups %r, the rule prefers %r" % (sorted(map(sorted, have)), sorted(map(sorted, ok[0])))
    return None


PARTS = {
    "mj": lambda D, d, C, L, rec, m1: judge_mj(D, d, C, L, rec),
    "paessens": judge_paessens,
    "gaskell": lambda D, d, C, L, rec, m1: judge_gaskell(D, d, C, L, rec),
    "pnn": lambda D, d, C, L, rec, m1: judge_pnn(D, d, C, L, rec),
    "tyagi": lambda D, d, C, L, rec, m1: judge_tyagi(D, d, C, L, rec),
}
COUNT = {"mj": (10, 60), "paessens": (18, 60), "gaskell": (18, 200), "pnn": (18, 200), "tyagi": (18, 200)}


def vectors(n, count):
    """Evenly spread over the demand vectors of {1,2,3}; all if few."""
    tot = 3 ** n
    k = max(1, tot // count)
    return [tuple(1 + (j // 3 ** i) % 3 for i in range(n)) for j in range(k // 2, tot, k)]


STEP = {"mj": (2, 1), "paessens": (8, 2), "gaskell": (1, 1), "pnn": (1, 1), "tyagi": (1, 1)}


def cases(name, part, count):
    if name in I.GENERAL:           # every critical route limit (count: a fixed part of them)
        for x in I.limited(name, count):
            yield x
        return
    pts = LAY[name]
    D = ref.matrix(pts, "EXACT_2D")
    for case in I.complete(pts, "EXACT_2D", vectors(len(pts) - 1, count)):
        _, _, d, C, L = case
        if C and C >= sum(d) and L is None:
            continue
        yield D, d, C, L


def shards(tier):
    q = tier == "quick"
    for part in PARTS:
        for name in LAY:
            for k in range(4):
                yield (part, name, COUNT[part][0 if q else 1], not q or len(LAY[name]) <= 7, k, 4)
        for name in sorted(I.GENERAL):
            if q and name != "gen6a" and not name.startswith("gen5"):
                continue
            st = STEP[part][0 if q else 1] * (1 if name.startswith("gen5") else 8)
            for k in range(4):
                yield (part, name, st, not q, k, 4)


def run(shard, rec):
    part, name, count, m1, k, m = shard
    for i, (D, d, C, L) in enumerate(cases(name, part, count)):
        if i % m != k:
            continue
        rec.state((part, name, repr((d, C, L))))
        w = PARTS[part](D, d, C, L, rec, m1 and i % 5 == 0)
        if w:
            rec.fail([part, name, d, C, L, m1 and i % 5 == 0], "%s on points=%r d=%r C=%r L=%r" % (w, {**LAY, **I.GENERAL}[name], d, C, L))


def replay(case):
    class R:
        def step(self, n=1): pass
        valid = step
        outcome = step
    part, name, d, C, L, m1 = case
    return PARTS[part](ref.matrix({**LAY, **I.GENERAL}[name], "EXACT_2D"), list(d), C, L, R(), m1)
