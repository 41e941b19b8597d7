"""P13: repeated local search never worsens, stays feasible, ends in a local optimum.

All feasible plans of a small problem are start states.  For each list of
operators and each pair of strategies the real search is run from every one of
them; the end state must be a feasible plan of no higher cost in which no
operator has an improving move, according to neighbourhoods built by hand.
"""
import itertools
import functools
import numpy as np
from vmc import ref, nb, instances as I
from vmc.core import guarded
from vmc.plans import graph
from vmc.checks.p12 import limits
from verypy.local_search import LSOPT, ITEROPT, do_local_search
from verypy.local_search import intra_route_operators as intra, inter_route_operators as inter

LEVEL = "model_checking"
TECHNIQUE = "the real local search is executed from every feasible plan of each enumerated problem, for every operator list and strategy pair; end states are checked against independently built neighbourhoods"
NOTE = ("Complete within the bounds: all feasible plans of the enumerated problems as starts, so every end state a search can reach from anywhere "
        "is seen. Redistribution may worsen a plan by design: lists with it are judged for termination, feasibility and service only. "
        "More than five customers, and the operators documented as incomplete, are not covered.")
BOUNDS = {"quick": "every feasible plan of: multisets of 3 customers on a 3x3 grid, 4x4 matrices over {1,4}, a fixed 64 of the 5x5 matrices over {1,4}, 2 layouts of 5 customers; limits on the borders; 8 single operators, 12 pairs and 4 longer lists; 2 operator strategies x 4 iteration strategies; iteration limits none, 1 and 2",
          "thorough": "all 5x5 matrices over {1,4}, 4 layouts, all ordered pairs of operators, all limits"}
ASSUMPTIONS = ["symmetric distances", "an improving move is one that lowers the cost by more than 1e-7"]

INTRA = ("do_2opt_move", "do_3opt_move", "do_relocate_move", "do_exchange_move")
INTER = ("do_2optstar_move", "do_1point_move", "do_2point_move", "do_chain_move")
OP = {n: getattr(intra, n) for n in INTRA}
OP.update({n: getattr(inter, n) for n in INTER + ("do_redistribute_move",)})
SHORT = {n: n[3:-5] for n in OP}
ITER = ("ALL_ACCEPT", "FIRST_ACCEPT", "BEST_ACCEPT", "REPEATED_ACCEPT")
STRAT = ("FIRST_ACCEPT", "BEST_ACCEPT")


@functools.lru_cache(maxsize=None)
def neighbours(n, name, i):
    """Indices of the plans one move of the operator away from plan i."""
    g = graph(n)
    plan = [(0,) + r + (0,) for r in g.plans[i]]
    out = set()

    def add(rs, keep):
        p = [r[1:-1] for r in rs if len(r) > 2] + [r[1:-1] for r in keep]
        out.add(g.idx[ref.canon(p)])
    if name in nb.NB:
        for k, r in enumerate(plan):
            for x in nb.NB[name](r):
                add([x], plan[:k] + plan[k + 1:])
    else:
        k = 3 if name in nb.NB3 else 2
        gen = nb.NB3.get(name) or nb.NB2[name]
        for ids in itertools.permutations(range(len(plan)), k):
            keep = [plan[x] for x in range(len(plan)) if x not in ids]
            for x in gen(*[plan[x] for x in ids]):
                add(x, keep)
    out.discard(i)
    return np.array(sorted(out), dtype=int)


def lists(full):
    one = [(n,) for n in INTRA + INTER]
    if full:
        two = list(itertools.permutations(INTRA + INTER, 2))
    else:
        two = [("do_2opt_move", "do_1point_move"), ("do_1point_move", "do_2opt_move"),
               ("do_relocate_move", "do_2optstar_move"), ("do_2optstar_move", "do_relocate_move"),
               ("do_2point_move", "do_1point_move"), ("do_1point_move", "do_2point_move"),
               ("do_chain_move", "do_2opt_move"), ("do_exchange_move", "do_2point_move"),
               ("do_3opt_move", "do_2optstar_move"), ("do_2optstar_move", "do_1point_move"),
               ("do_relocate_move", "do_exchange_move"), ("do_2opt_move", "do_3opt_move")]
    more = [INTRA + INTER, INTER + INTRA, ("do_2opt_move", "do_2optstar_move", "do_1point_move"),
            ("do_redistribute_move",), ("do_1point_move", "do_redistribute_move")]
    return one + two + more


def problem(start, names, st, it, mi, D, d, C, L, w=None):
    n = len(D) - 1
    g = graph(n)
    cost, sure, maybe = w if w is not None else (g.costs(D),) + g.feasible(D, d, C, L)
    i = g.idx[ref.canon(ref.split(start))]
    inp, Din, din = list(start), D.copy(), None if d is None else list(d)
    out, err = guarded(lambda: do_local_search([OP[x] for x in names], inp, Din, din, C, L,
                                               operator_strategy=getattr(LSOPT, st), iteration_strategy=getattr(ITEROPT, it),
                                               max_iterations=mi), 10)
    if err:
        return err
    if inp != start or not (Din == D).all() or din != (None if d is None else list(d)):
        return "changed its input"
    if isinstance(out, (list, tuple)) and out:       # a route that was emptied may stay as such
        out = [out[0]] + [x for a, x in zip(out, out[1:]) if a or x]
    p = ref.plan_problem(out, D, d, C, L, 1e-7)
    if p:
        return "the result " + p
    if "do_redistribute_move" in names:
        return None
    j = g.idx[ref.canon(ref.split(out))]
    if cost[j] > cost[i] + 1e-7:
        return "raised the cost from %r to %r with %r" % (cost[i], cost[j], out)
    if mi is not None:
        return None
    for x in names:
        b = neighbours(n, x, j)
        if len(b):
            b = b[sure[b]]
        if len(b) and cost[b].min() < cost[j] - 1e-7:
            k = b[cost[b].argmin()]
            return "stopped at %r (cost %r) although %s reaches %r (cost %r)" % (out, cost[j], SHORT[x], g.plans[k], cost[k])
    return None


def cases(src):
    kind = src[0]
    if kind == "grid":
        _, n, dep, wk, first = src
        for pts in I.grid(n, (dep,)):
            if pts[1] == first:
                for p, wt in I.kinds(pts, (wk,)):
                    yield ref.matrix(p, wt)
    elif kind == "matrix":
        _, n, alpha, pre, step = src
        m = (n + 1) * n // 2
        iu = np.triu_indices(n + 1, 1)
        for k, rest in enumerate(itertools.product(alpha, repeat=m - len(pre))):
            if k % step:
                continue
            D = np.zeros((n + 1, n + 1), dtype=int)
            D[iu] = pre + rest
            yield D + D.T
    else:
        for p, wt in I.kinds(I.LAYOUTS[src[1]], (src[2],)):
            yield ref.matrix(p, wt)


def shards(tier):
    q = tier == "quick"
    for name in ("ring5", "line5") if q else ("ring5", "line5", "coin5", "far5"):
        if name not in I.LAYOUTS:
            continue
        for wk in ("EXACT_2D", "EUC_2D") if not q else ("EXACT_2D" if name == "ring5" else "EUC_2D",):
            for part in range(16):
                yield (tier, ("layout", name, wk), part, 16)
    for pre in itertools.product((1, 4), repeat=4):
        yield (tier, ("matrix", 4, (1, 4), pre, 16 if q else 1), 0, 1)
    for pre in itertools.product((1, 4), repeat=2):
        yield (tier, ("matrix", 3, (1, 4), pre, 1), 0, 1)
    for dep in ((1, 1), (0, 0)):
        for wk in ("EXACT_2D", "EUC_2D"):
            if q and wk != ("EXACT_2D" if dep == (1, 1) else "EUC_2D"):
                continue
            for first in I.G3:
                yield (tier, ("grid", 3, dep, wk, first), 0, 1)


def run(shard, rec):
    tier, src, part, parts = shard
    q = tier == "quick"
    for D in cases(src):
        n = len(D) - 1
        g = graph(n)
        lim = limits(D, not q)
        if q and src[0] == "grid":
            lim = lim[2:3] + lim[5::4][:1]
        elif q:
            lim = lim[:1] + lim[2:3] + lim[4 + n % 2::4][:3]
        for d, C, L in lim:
            w = (g.costs(D),) + g.feasible(D, d, C, L)
            dd = d if d is not None else [0] + [1] * n
            for i in np.nonzero(w[1])[0]:
                if i % parts != part:
                    continue
                start = ref.join(g.plans[i])
                rec.state((D.tobytes(), D.dtype.kind, tuple(start), repr((d, C, L))))
                for ln, names in enumerate(lists(not q)):
                    for st in STRAT:
                        for it in ITER:
                            for mi in (None, 1, 2) if (ln + i) % 5 == 0 else (None,):
                                rec.step(); rec.valid()
                                bad = problem(start, names, st, it, mi, D, dd, C, L, w)
                                if bad:
                                    rec.fail({"D": D, "d": dd, "C": C, "L": L, "start": start, "names": names, "st": st, "it": it, "mi": mi},
                                             "local search with %s, operators %s, iterations %s, limit %r from %r d=%r C=%r L=%r: %s; D=%r" % (
                                             "+".join(SHORT[x] for x in names), st, it, mi, start, d, C, L, bad, D.tolist()))
            rec.outcome("n=%d C=%s L=%s" % (n, C is not None, L is not None))
        rec.sample({"D": D.tolist()})


def replay(c):
    return problem(c["start"], tuple(c["names"]), c["st"], c["it"], c["mi"], c["D"], c["d"], c["C"], c["L"])
