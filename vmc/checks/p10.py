"""P10: moves within a route are exact and complete.

Every route of an enumerated space is given to the real operator and its answer
is compared with the operator's whole neighbourhood, built here by hand.
"""
import itertools
import numpy as np
from vmc import ref, instances as I
from vmc.core import guarded
from vmc.nb import NB
from verypy.local_search import LSOPT
from verypy.local_search import intra_route_operators as ops

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of routes; the real operator's answer is compared with its complete neighbourhood, enumerated independently"
NOTE = ("Complete within the bounds: every route of up to four customers over a 3x3 grid, every route of 4 customers over every "
        "distance matrix with entries from a small set, every order of fixed layouts of 5-6 customers. Longer routes are not covered.")
BOUNDS = {"quick": "all orders of all multisets of 1-3 customers of a 3x3 grid (real, rounded and scaled distances), half of those of 4; all symmetric 5x5 matrices over {1,2,4} and 4x4 over {0,1,5}; all orders of 3 layouts of 5 and 2 of 6 customers; 4 operators x 2 strategies x 6 required levels",
          "thorough": "as quick with all multisets of 4-5 customers and 6 layouts of 5-7 customers"}
ASSUMPTIONS = ["symmetric distances", "a change within 1e-7 of the required level may be reported or not when distances are real; with integer distances the comparison is exact"]

OPS = [n for n in ("do_2opt_move", "do_3opt_move", "do_relocate_move", "do_exchange_move")]
STRAT = (LSOPT.FIRST_ACCEPT, LSOPT.BEST_ACCEPT)


def levels(best):
    out = [None, 1000]
    if best is not None:
        out += [best, best + 1, best / 2, best - 1]
        if best >= 0:
            out += [-1]
    return out


def problem(route, D, only=None):
    """Everything about one route; None or (operator, strategy, level, what)."""
    route = list(route)
    Dl = D.tolist()
    exact = D.dtype.kind == "i"
    c0 = ref_cost(route, Dl)
    for name in OPS:
        op = getattr(ops, name)
        nb = NB[name](tuple(route))
        deltas = {r: ref_cost(r, Dl) - c0 for r in nb}
        real = [v for r, v in deltas.items() if r != tuple(route)]
        best = min(real) if real else None
        for st in STRAT:
            for lev in levels(best):
                if only and only != (name, st, lev):
                    continue
                r_in, D_in = list(route), D.copy()
                out, err = guarded(lambda: op(r_in, D_in, st, lev), 10)
                tag = (name, st, lev)
                if err:
                    return tag, err
                if r_in != route or not (D_in == D).all():
                    return tag, "changed its input"
                if not (isinstance(out, tuple) and len(out) == 2):
                    return tag, "returned %r" % (out,)
                new, delta = out
                level = lev or 0
                tol = 0 if exact else 1e-7
                if new is None or delta is None:
                    if not (new is None and delta is None):
                        return tag, "returned %r" % (out,)
                    if best is not None and best < level - tol - (1e-9 if exact else 0):
                        return tag, "reported no move although one changes the cost by %r" % (best,)
                    continue
                key = tuple(new)
                if key != tuple(route) and key not in deltas:
                    return tag, "returned %r, which is not in its neighbourhood" % (new,)
                true = ref_cost(key, Dl) - c0
                if abs(true - delta) > 1e-7:
                    return tag, "reported a change of %r, it is %r for %r" % (delta, true, new)
                if not true < level + tol:
                    return tag, "reported a change of %r, which does not beat the required %r" % (delta, level)
                if st == LSOPT.BEST_ACCEPT and best is not None and true > min(best, level) + 1e-7:
                    if not (key == tuple(route) and best > 0):
                        return tag, "reported a change of %r, the best of the neighbourhood is %r" % (delta, best)
    return None


def ref_cost(r, Dl):
    return sum(Dl[a][b] for a, b in zip(r, r[1:]))


def cases(src):
    kind = src[0]
    if kind == "grid":
        _, n, dep, wk, first, one_order = src
        for pts in I.grid(n, (dep,)):
            if pts[1] != first:
                continue
            for p, wt in I.kinds(pts, (wk,)):
                D = ref.matrix(p, wt)
                for perm in itertools.permutations(range(1, n + 1)):
                    if perm <= perm[::-1] or not one_order:
                        yield [0] + list(perm) + [0], D
    elif kind == "layout":
        _, name, wk, first = src
        for p, wt in I.kinds(I.LAYOUTS[name], (wk,)):
            D = ref.matrix(p, wt)
            n = len(p) - 1
            for perm in itertools.permutations([x for x in range(1, n + 1) if x != first]):
                yield [0, first] + list(perm) + [0], D
    elif kind == "matrix":
        _, n, alpha, a0, a1 = src
        m = (n + 1) * n // 2
        iu = np.triu_indices(n + 1, 1)
        for rest in itertools.product(alpha, repeat=m - 2):
            D = np.zeros((n + 1, n + 1), dtype=int)
            D[iu] = (a0, a1) + rest
            D = D + D.T
            yield [0] + list(range(1, n + 1)) + [0], D


def shards(tier):
    q = tier == "quick"
    for n in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5):
        for dep in ((1, 1), (0, 0)):
            for wk in ("EXACT_2D", "EUC_2D", "EUC_2Dx7"):
                if n > 3 and q and (wk != ("EXACT_2D" if dep == (1, 1) else "EUC_2D")):
                    continue
                for first in I.G3:
                    yield ("grid", n, dep, wk, first, n > 3)
    for name in ("ring5", "coin5", "line5", "clus6", "far6") if q else ("ring5", "coin5", "line5", "clus6", "far6", "spir7"):
        for wk in ("EXACT_2D", "EUC_2D"):
            for first in range(1, len(I.LAYOUTS[name])):
                yield ("layout", name, wk, first)
    for a0 in (0, 1, 5):
        for a1 in (0, 1, 5):
            yield ("matrix", 3, (0, 1, 5), a0, a1)
    al = (1, 2, 4)
    for a0 in al:
        for a1 in al:
            yield ("matrix", 4, al, a0, a1)
    yield ("empty",)


def run(shard, rec):
    if shard == ("empty",):
        it = [([0, 0], np.zeros((1, 1), dtype=int)), ([0, 0], np.zeros((1, 1)))]
    else:
        it = cases(shard)
    for route, D in it:
        rec.state((tuple(route), D.tobytes(), D.dtype.kind))
        rec.step(len(OPS) * 2 * 6); rec.valid(len(OPS) * 2 * 6)
        w = problem(route, D)
        rec.outcome("%s n=%d" % (shard[0], len(route) - 2))
        if w:
            tag, what = w
            rec.fail({"route": route, "D": D, "tag": list(tag)}, "%s strategy=%s best_delta=%r on route %r: %s; D=%r" % (tag + (route, what, D.tolist())))
    if shard != ("empty",):
        rec.sample({"route": route, "D": D.tolist()})


def replay(case):
    w = problem(case["route"], case["D"])
    return "%s: %s" % w if w else None
