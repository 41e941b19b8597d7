"""P12: the 3-opt* move over a whole plan is exact, feasible and complete.

All plans of a small problem form a graph, two plans being neighbours if at
most three edges differ.  The graph is built from edge sets, without any table
of moves; the real operator is run on every feasible node of it and its answer
compared with all edges leaving that node.
"""
import itertools
import numpy as np
from vmc import ref, instances as I
from vmc.core import guarded
from vmc.plans import graph
from verypy.local_search import LSOPT
from verypy.local_search import solution_operators as so

LEVEL = "model_checking"
TECHNIQUE = "explicit graph of all plans (edges: at most three replaced tour edges) built independently; the real operator is executed on every feasible node and its answer compared with all outgoing edges"
NOTE = ("Complete within the bounds: every feasible plan of the enumerated problems (up to four customers on a grid and on all small integer "
        "matrices, five and six on layouts), with capacity and route limit on the borders where reconnections become infeasible. "
        "Larger plans are not covered; routes longer than six customers cannot occur.")
BOUNDS = {"quick": "every feasible plan (in 2-3 of its listings; all listings on the grid) of: all multisets of 2-3 customers on a 3x3 grid, all 4x4 matrices over {1,2,4} (a third of the limits), all 5x5 matrices over {1,4} (two of the limits), 2 layouts of 5 customers; 3 demand patterns x C levels x L levels; 2 strategies x 2-3 required levels; plan given as list and with precomputed sums",
          "thorough": "as quick plus 4 customers on the grid, 5x5 matrices over {1,2,4}, 6 layouts of 5-6 customers in all limits"}
ASSUMPTIONS = ["symmetric distances; no empty routes in the given plan",
               "a change within 1e-7 of the required level, or a load or cost within 1e-7 above a limit, may be judged either way when numbers are real"]
STRAT = (LSOPT.FIRST_ACCEPT, LSOPT.BEST_ACCEPT)


def listings(plan, n, every=True):
    """Giant tours that describe the plan."""
    plan = [list(r) for r in plan]
    if n <= 3 and every:
        out = []
        for order in itertools.permutations(plan):
            for flips in itertools.product((1, -1), repeat=len(plan)):
                s = ref.join([r[::f] for r, f in zip(order, flips)])
                if s not in out:
                    out.append(s)
        return out
    out = [ref.join(plan), ref.join([r[::-1] for r in plan[::-1]])]
    alt = ref.join([r[::-1] if i % 2 else r for i, r in enumerate(plan[1:] + plan[:1])])
    if alt not in out:
        out.append(alt)
    return out


def problem(sol, D, d, C, L, g=None, w=None, rec=None, full=True):
    n = len(D) - 1
    g = g or graph(n)
    if w is None:
        w = (g.costs(D),) + g.feasible(D, d, C, L)
    cost, sure, maybe = w
    i = g.idx[ref.canon(ref.split(sol))]
    nb = g.within(i, 3)
    delta = cost[nb] - cost[i]
    ok = sure[nb] & (nb != i)
    best = delta[ok].min() if ok.any() else None
    exact = D.dtype.kind == "i"
    tol = 0 if exact else 1e-7
    near = {int(x) for x in nb}
    # changes around the best one, just unreachable, anything at all
    lv = [None, 1000] + ([best, best + 1] if best is not None else [-1])
    for st in STRAT:
        for lev in lv if full else (lv[0::2] if st == LSOPT.FIRST_ACCEPT else lv[:2] + lv[3:]):
            for form in ("list", "aux") if lev is None and st == LSOPT.BEST_ACCEPT and hasattr(so, "SolutionAuxiliaryData") else ("list",):
                tag = (form, st, None if lev is None else float(lev))
                if rec:
                    rec.step(); rec.valid()
                inp, Din = list(sol), D.copy()
                arg = inp
                if form == "aux":
                    arg = aux(inp, D, d)
                out, err = guarded(lambda: so.do_3optstar_move(arg, Din, d, C, L, st, lev), 10)
                if err:
                    return tag, err
                if inp != sol or not (Din == D).all():
                    return tag, "changed its input"
                if not (isinstance(out, tuple) and len(out) == 2):
                    return tag, "returned %r" % (out,)
                new, rep = out
                level = lev or 0
                if new is None or rep is None:
                    if not (new is None and rep is None):
                        return tag, "returned %r" % (out,)
                    if best is not None and best < level - tol - (1e-9 if exact else 0):
                        return tag, "reported no move although one changes the cost by %r" % (best,)
                    continue
                new = list(new)
                p = ref.plan_problem(new, D, d, C, L, 1e-7) if new and 0 in new else "is malformed: %r" % (new,)
                if p:
                    return tag, "the new plan " + p
                j = g.idx[ref.canon(ref.split(new))]
                true = cost[j] - cost[i]
                if abs(true - rep) > 1e-7:
                    return tag, "reported a change of %r, it is %r for %r" % (rep, true, new)
                if j not in near:
                    return tag, "returned %r, which replaces more than three edges" % (new,)
                if not true < level + tol:
                    return tag, "reported a change of %r, which does not beat the required %r" % (rep, level)
                if st == LSOPT.BEST_ACCEPT and best is not None and true > min(best, level) + 1e-7 and not (j == i and best > 0):
                    return tag, "reported a change of %r, the best is %r" % (true, best)
    return None


def aux(sol, D, d):
    """The documented precomputed form: running loads and lengths, restarting at the depot."""
    def run(seq):
        ds, ls, cd, cl, prev = [0.0], [0.0], 0.0, 0.0, 0
        for x in seq[1:]:
            if x == 0:
                cd = cl = 0.0
            else:
                cd += d[x] if d is not None else 0
                cl += D[prev, x]
            ds.append(cd); ls.append(cl)
            prev = x
        return ds, ls
    fd, fl = run(sol)
    rd, rl = run(sol[::-1])
    return so.SolutionAuxiliaryData(sol=list(sol), fwd_d=fd, rwd_d=rd[::-1], fwd_l=fl, rwd_l=rl[::-1])


def limits(D, dense):
    n = len(D) - 1
    Dl = D.tolist()
    m = max(2 * Dl[0][i] for i in range(1, n + 1))
    cs = set()
    for k in (2, 3, 4):
        for p in itertools.permutations(range(1, n + 1), min(k, n)):
            cs.add(ref.rcost(p, D).item())
    up = sorted(x for x in cs if x >= m)
    Ls = [None] + ([m] if m > 0 else [])
    for x in (up[0], up[len(up) // 2], up[-1]) if up else ():
        if x not in Ls and x > 0:
            Ls.append(x)
    pats = [[0] + [1] * n, [0] + [1 + i % 2 for i in range(n)], [0.0] + [0.1 * (1 + i % 3) for i in range(n)]]
    out = [(None, None, L) for L in Ls]
    for k, d in enumerate(pats):
        s, mx = sum(d), max(d)
        Cs = [mx] if k else []
        Cs += [max(mx, round(s / 2, 6)), round(s - 0.1 if k == 2 else s - 1, 6)]
        for C in dict.fromkeys(Cs):
            if C < mx - 1e-9:
                continue
            for L in Ls if dense else [Ls[0], Ls[max(0, len(Ls) - 2)]]:
                out.append((d, C, L))
    return out


def cases(src):
    kind = src[0]
    if kind == "grid":
        _, n, dep, wk, first = src
        for pts in I.grid(n, (dep,)):
            if pts[1] != first:
                continue
            for p, wt in I.kinds(pts, (wk,)):
                yield ref.matrix(p, wt)
    elif kind == "matrix":
        _, n, alpha, pre = src
        m = (n + 1) * n // 2
        iu = np.triu_indices(n + 1, 1)
        for rest in itertools.product(alpha, repeat=m - len(pre)):
            D = np.zeros((n + 1, n + 1), dtype=int)
            D[iu] = pre + rest
            yield D + D.T
    elif kind == "layout":
        for p, wt in I.kinds(I.LAYOUTS[src[1]], (src[2],)):
            yield ref.matrix(p, wt)


def shards(tier):
    q = tier == "quick"
    for name in ("ring5", "coin5") if q else ("ring5", "line5", "coin5", "clus6", "far6", "ring6"):
        for wk in ("EXACT_2D", "EUC_2D"):
            for part in range(8):
                yield (tier, ("layout", name, wk), part, 8)
    al = (1, 4) if q else (1, 2, 4)
    for pre in itertools.product(al, repeat=4):
        yield (tier, ("matrix", 4, al, pre), 0, 1)
    for pre in itertools.product((1, 2, 4), repeat=2):
        yield (tier, ("matrix", 3, (1, 2, 4), pre), 0, 1)
    for n in (2, 3) if q else (2, 3, 4):
        for dep in ((1, 1), (0, 0)):
            for wk in ("EXACT_2D", "EUC_2D", "EUC_2Dx7"):
                for first in I.G3:
                    if q and n == 3 and wk != ("EXACT_2D" if dep == (1, 1) else "EUC_2D"):
                        continue
                    yield (tier, ("grid", n, dep, wk, first), 0, 1)


def run(shard, rec):
    tier, src, part, parts = shard
    q = tier == "quick"
    D = None
    for D in cases(src):
        n = len(D) - 1
        g = graph(n)
        lim = limits(D, not q)
        if q and src[:2] == ("matrix", 4):
            lim = lim[1:2] + lim[5:6]
        elif q and src[0] == "matrix":
            lim = lim[::3]
        for d, C, L in lim:
            w = (g.costs(D),) + g.feasible(D, d, C, L)
            for i in np.nonzero(w[1])[0]:
                if i % parts != part:
                    continue
                plan = g.plans[i]
                for sol in listings(plan, n, not q or src[0] == "grid"):
                    if not rec.state((D.tobytes(), D.dtype.kind, tuple(sol), repr((d, C, L)))):
                        continue
                    bad = problem(sol, D, d, C, L, g, w, rec, not q)
                    if bad:
                        rec.fail({"D": D, "d": d, "C": C, "L": L, "sol": sol, "tag": list(bad[0])},
                                 "do_3optstar_move %s strategy=%s best_delta=%r on %r d=%r C=%r L=%r: %s; D=%r" % (bad[0] + (sol, d, C, L, bad[1], D.tolist())))
            rec.outcome("n=%d C=%s L=%s" % (n, C is not None, L is not None))
    if D is not None:
        rec.sample({"D": D.tolist(), "limits": len(lim)})


def replay(case):
    bad = problem(case["sol"], case["D"], case["d"], case["C"], case["L"])
    return "%s: %s" % bad if bad else None
