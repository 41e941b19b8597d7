"""P34: the educational (naive) operators, on whole plans, are what they are
used for: a reference.  Every feasible plan of small problems is given to each
of them and the answer compared with the operator's whole neighbourhood, built
here from edge sets or by definition; their repeated search is replayed step by
step.
"""
import itertools, math
import numpy as np
from vmc import ref, nb
from vmc.core import guarded
from vmc.plans import graph
from vmc.checks import p12
from verypy.local_search import LSOPT
from verypy.local_search import naive_implementations as nv

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of feasible plans; each naive operator's answer is compared with its complete neighbourhood (2-opt*: graph of all plans by replaced edges), the repeated search with a replay of its transition system"
NOTE = ("Complete within the bounds: every feasible plan (in several listings) of up to four customers on grids, small integer matrices and layouts of five, "
        "on limits where moves become infeasible. The 3-opt* reference is documented as not implemented and is not judged.")
BOUNDS = {"quick": "every feasible plan in 2-3 listings (all listings on the grid) of: 2-3 customers on a 3x3 grid, all 4x4 matrices over {1,2,4}, 2 layouts of 5 customers; 6 operators x 2 strategies x up to 3 required levels; searches with 5 operator lists x 2 strategies x limits none, 1, 2, 3; the three operators within routes also on every plan of 6 customers in routes of 3+3, 2+4 and 6, and every 11th permutation of 7 in routes of 3+4 and 3+1+3",
          "thorough": "as quick in all limits, plus 4 customers on the grid, 5x5 matrices over {1,4} 6 layouts, and more layouts of 6-8 customers with several longer routes"}
ASSUMPTIONS = ["symmetric distances; feasible plans without empty routes", "a change within 1e-7 of the required level, or a load or cost within 1e-7 above a limit, may be judged either way",
               "an iteration of the repeated search is an improvement or a pass over all operators (the documentation leaves it open)"]
STRAT = (LSOPT.FIRST_ACCEPT, LSOPT.BEST_ACCEPT)
INTRA = {"do_naive_2opt_move": nb.two_opt}
PER_ROUTE = {"do_naive_relocate_move": nb.relocate, "do_naive_exchange_move": nb.exchange}
WHOLE = ("do_naive_1point_move", "do_naive_2point_move")
LISTS = (("do_naive_2opt_move", "do_naive_relocate_move"), ("do_naive_1point_move",), ("do_naive_2optstar_move", "do_naive_exchange_move"),
         ("do_naive_2point_move", "do_naive_1point_move", "do_naive_2opt_move"), ("do_naive_exchange_move", "do_naive_relocate_move", "do_naive_2optstar_move"))


def cost(s, Dl):
    return sum(Dl[a][b] for a, b in zip(s, s[1:]))


def over(s, D, d, C, L):
    """How much the plan exceeds its limits (at most 0 if feasible)."""
    x = -1.0
    for r in ref.split(s):
        if C:
            x = max(x, sum(d[v] for v in r) - C)
        if L:
            x = max(x, ref.rcost(r, D) - L)
    return x


def neighbours(name, sol):
    """Giant tours that the operator may reach from sol by one move."""
    sol = tuple(sol)
    out = set()
    if name == "do_naive_2opt_move":
        z = [i for i, v in enumerate(sol) if v == 0]
        for a, b in zip(z, z[1:]):
            out |= {sol[:a] + x + sol[b + 1:] for x in nb.two_opt(sol[a:b + 1])}
    elif name == "do_naive_1point_move":
        for v in sol:
            if v:
                rest = [x for x in sol if x != v]
                out |= {tuple(rest[:j] + [v] + rest[j:]) for j in range(1, len(rest))}
    elif name == "do_naive_2point_move":
        for i, j in itertools.combinations(range(1, len(sol) - 1), 2):
            if sol[i] and sol[j]:
                x = list(sol)
                x[i], x[j] = x[j], x[i]
                out.add(tuple(x))
    out.discard(sol)
    return out


def call(name, sol, D, d, C, L, st, lev):
    s, Din = list(sol), D.copy()
    out, err = guarded(lambda: getattr(nv, name)(s, Din, d, C, L, st, lev), 10)
    if err:
        return None, err
    if s != list(sol) or not (Din == D).all():
        return None, "changed its input"
    if not (isinstance(out, tuple) and len(out) == 2) or (out[0] is None) != (out[1] is None):
        return None, "returned %r" % (out,)
    return out, None


LONGER = tuple(INTRA) + tuple(PER_ROUTE)      # on plans with several longer routes


def operators(sol, D, d, C, L, g=None, w=None, rec=None):
    """None or (tag, what) for one plan and all operators."""
    Dl = D.tolist()
    n = len(D) - 1
    names = LONGER if n > 5 and g is None and w is None else tuple(INTRA) + WHOLE + ("do_naive_2optstar_move",) + tuple(PER_ROUTE)
    if len(names) > len(LONGER):
        g = g or graph(n)
        if w is None:
            w = (g.costs(D),) + g.feasible(D, d, C, L)
        gc, sure, maybe = w
    c0 = cost(sol, Dl)
    for name in names:
        if not hasattr(nv, name):
            continue
        near = None
        if name == "do_naive_2optstar_move":
            i = g.idx[ref.canon(ref.split(sol))]
            near = g.within(i, 2)
            dl = gc[near] - gc[i]
            ok = sure[near] & (near != i)
            best = dl[ok].min() if ok.any() else None
            near = {int(x) for x in near}
        elif name in PER_ROUTE:
            best = None
        else:
            deltas = {s: cost(s, Dl) - c0 for s in neighbours(name, sol)}
            feas = [x for s, x in deltas.items() if name in INTRA or over(s, D, d, C, L) <= 1e-12]
            best = min(feas) if feas else None
        lv = [None] if name in PER_ROUTE else [None, 1000] + ([best - 1e-3, best + 1] if best is not None else [])
        for st in STRAT:
            for lev in lv:
                tag = (name, st, None if lev is None else float(lev))
                if rec:
                    rec.step(); rec.valid()
                out, err = call(name, sol, D, d, C, L, st, lev)
                if err:
                    return tag, err
                new, rep = out
                level = lev or 0
                if name in PER_ROUTE:
                    bad = per_route(name, sol, new, rep, D, Dl, d, C, L, st)
                    if bad:
                        return tag, bad
                    continue
                if new is None:
                    if best is not None and best < level - 1e-6:
                        return tag, "reported no move although one changes the cost by %r" % (best,)
                    continue
                new = [int(x) for x in new]
                if name == "do_naive_2optstar_move":
                    p = ref.plan_problem(new, D, d, C, L, 1e-7)
                    if p:
                        return tag, "the new plan " + p
                    j = g.idx[ref.canon(ref.split(new))]
                    if j not in near:
                        return tag, "returned %r, which replaces more than two edges" % (new,)
                else:
                    if tuple(new) not in deltas and new != list(sol):
                        return tag, "returned %r, which is not in its neighbourhood" % (new,)
                    if name not in INTRA and over(new, D, d, C, L) > 1e-7:
                        return tag, "returned %r, which exceeds a limit" % (new,)
                true = cost(new, Dl) - c0
                if abs(true - rep) > 1e-7:
                    return tag, "reported a change of %r, it is %r for %r" % (rep, true, new)
                if not true < level + 1e-7:
                    return tag, "reported a change of %r, which does not beat the required %r" % (rep, level)
                if st == LSOPT.BEST_ACCEPT and best is not None and true > min(best, level) + 1e-7 and not (best > 0 and new == list(sol)):
                    return tag, "reported a change of %r, the best is %r" % (true, best)
    return None


def per_route(name, sol, new, rep, D, Dl, d, C, L, st):
    """The variants applied to each route on its own improve every route that can be."""
    old = ref.split(sol)
    best = []
    for r in old:
        q = (0,) + tuple(r) + (0,)
        x = [cost(s, Dl) - cost(q, Dl) for s in PER_ROUTE[name](q)]
        best.append(min(x + [0]))
    if new is None:
        if min(best) < -1e-6:
            return "reported no move although one changes the cost by %r" % min(best)
        return None
    rs = ref.split([int(x) for x in new])
    if len(rs) != len(old):
        return "returned %r" % (new,)
    total = 0
    for a, b, x in zip(old, rs, best):
        p, q = (0,) + tuple(a) + (0,), (0,) + tuple(b) + (0,)
        t = cost(q, Dl) - cost(p, Dl)
        total += t
        if p != q and q not in PER_ROUTE[name](p):
            return "returned route %r for %r, which is not in its neighbourhood" % (b, a)
        if t > 1e-7 or (x < -1e-6 and t > -1e-9):
            return "left route %r as %r although it can be improved by %r" % (a, b, -x)
        if st == LSOPT.BEST_ACCEPT and t > x + 1e-6:
            return "improved route %r by %r, the best is %r" % (a, -t, -x)
    if abs(total - rep) > 1e-7:
        return "reported a change of %r, it is %r for %r" % (rep, total, new)
    return None


def searches(sol, D, d, C, L, rec=None, lists=LISTS):
    Dl = D.tolist()
    for names in lists:
        if not all(hasattr(nv, x) for x in names):
            continue
        for st in STRAT:
            # replay: states after every improvement, with the pass it was made in
            trace, cur, passes, err = [(list(sol), 0)], list(sol), 0, None
            improved = True
            while improved and not err:
                improved = False
                passes += 1
                for x in names:
                    out, err = call(x, cur, D, d, C, L, st, None)
                    if err:
                        break
                    if out[1] is not None:
                        improved = True
                        cur = [int(v) for v in out[0]]
                        trace.append((cur, passes))
                if passes > 60:
                    err = "does not come to an end"
            if err:
                return (list(names), st, None), err
            for k in (None, 1, 2, 3):
                tag = (list(names), st, k)
                if rec:
                    rec.step(); rec.valid()
                s = list(sol)
                new, err = guarded(lambda: nv.do_naive_local_search([getattr(nv, x) for x in names], s, D.copy(), d, C, L, st, k), 10)
                if err:
                    return tag, err
                if s != list(sol):
                    return tag, "changed its input"
                new = [int(x) for x in new]
                if new[0] or new[-1] or sorted(x for x in new if x) != sorted(x for x in sol if x):
                    return tag, "returned %r" % (new,)
                if over(new, D, d, C, L) > 1e-7:
                    return tag, "returned %r, which exceeds a limit" % (new,)
                if k is None:
                    good = [trace[-1][0]]
                else:
                    lo = min(k, len(trace) - 1)
                    good = [t for i, (t, p) in enumerate(trace) if i >= lo and p <= k] or [trace[lo][0]]
                c = cost(new, Dl)
                if all(abs(c - cost(t, Dl)) > 1e-7 for t in good):
                    return tag, "returned %r of cost %r; improvements lead through %r" % (new, c, [(t, cost(t, Dl)) for t, _ in trace])
    return None


SPLITS = {6: ((3, 3), (6,), (2, 4)), 7: ((3, 4), (3, 1, 3)), 8: ((3, 3, 2), (4, 4))}


def longer(name, n, stride, part, parts):
    """Plans with several routes that are long enough to be improved on their own."""
    D = np.array([[math.dist(a, b) for b in p12.I.LAYOUTS[name][:n + 1]] for a in p12.I.LAYOUTS[name][:n + 1]])
    i = 0
    for split in SPLITS[n]:
        for perm in itertools.islice(itertools.permutations(range(1, n + 1)), 0, None, stride):
            i += 1
            if i % parts == part:
                sol, k = [0], 0
                for x in split:
                    sol += list(perm[k:k + x]) + [0]
                    k += x
                yield D, sol


def shards(tier):
    q = tier == "quick"
    for part in range(4):
        for name in ("ring6",) if q else ("ring6", "far6", "clus6"):
            yield (tier, ("longer", name, 6, 1), part, 4)
        for name in ("spir7",) if q else ("spir7", "fan7", "grid8"):
            yield (tier, ("longer", name, 7, 11 if q else 3), part, 4)
        if not q:
            yield (tier, ("longer", "cross8", 8, 11), part, 4)
    for name in ("ring5", "coin5") if q else ("ring5", "line5", "coin5", "clus6", "far6", "ring6"):
        for wk in ("EXACT_2D", "EUC_2D"):
            for part in range(8):
                yield (tier, ("layout", name, wk), part, 8)
    if not q:
        for pre in itertools.product((1, 4), repeat=4):
            yield (tier, ("matrix", 4, (1, 4), pre), 0, 1)
    for pre in itertools.product((1, 2, 4), repeat=2):
        yield (tier, ("matrix", 3, (1, 2, 4), pre), 0, 1)
    for n in (2, 3) if q else (2, 3, 4):
        for dep in ((1, 1), (0, 0)):
            for wk in ("EXACT_2D", "EUC_2D"):
                for first in p12.I.G3:
                    if q and n == 3 and wk != ("EXACT_2D" if dep == (1, 1) else "EUC_2D"):
                        continue
                    yield (tier, ("grid", n, dep, wk, first), 0, 1)


def run(shard, rec):
    tier, src, part, parts = shard
    q = tier == "quick"
    D = None
    if src[0] == "longer":
        for D, sol in longer(*src[1:] + (part, parts)):
            d, C, L = [0] + [1] * (len(D) - 1), None, None
            if not rec.state((D.tobytes(), D.dtype.kind, tuple(sol), "longer")):
                continue
            bad = operators(sol, D, d, C, L, rec=rec)
            if bad:
                rec.fail({"D": D, "d": d, "C": C, "L": L, "sol": sol, "tag": list(bad[0])},
                         "%s strategy=%s level or limit=%r on %r: %s; D=%r" % (bad[0] + (sol, bad[1], D.tolist())))
        rec.outcome("longer routes n=%d" % (len(D) - 1))
        return
    for D in p12.cases(src):
        n = len(D) - 1
        g = graph(n)
        lim = p12.limits(D, not q)
        if q and src[0] == "matrix":
            lim = lim[::4]
        elif q and n > 2:
            lim = lim[::2]
        for d, C, L in lim:
            w = (g.costs(D),) + g.feasible(D, d, C, L)
            for i in np.nonzero(w[1])[0]:
                if i % parts != part:
                    continue
                for j, sol in enumerate(p12.listings(g.plans[i], n, n < 3 or not q)):
                    if not rec.state((D.tobytes(), D.dtype.kind, tuple(sol), repr((d, C, L)))):
                        continue
                    bad = operators(sol, D, d, C, L, g, w, rec)
                    if not bad and j < 2:
                        bad = searches(sol, D, d, C, L, rec, LISTS[i % 2::2] if q else LISTS)
                    if bad:
                        rec.fail({"D": D, "d": d, "C": C, "L": L, "sol": sol, "tag": list(bad[0])},
                                 "%s strategy=%s level or limit=%r on %r d=%r C=%r L=%r: %s; D=%r" % (bad[0] + (sol, d, C, L, bad[1], D.tolist())))
            rec.outcome("n=%d C=%s L=%s" % (n, C is not None, L is not None))
    if D is not None:
        rec.sample({"D": D.tolist(), "limits": len(lim)})


def replay(case):
    if isinstance(case["tag"][0], str):
        bad = operators(case["sol"], case["D"], case["d"], case["C"], case["L"])
    else:
        bad = searches(case["sol"], case["D"], case["d"], case["C"], case["L"])
    return "%s: %s" % bad if bad else None
