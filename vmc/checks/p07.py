"""P07: insertion and nearest neighbour heuristics make the greedy choice."""
import itertools
import numpy as np
from vmc import ref, greedy as G, instances as I, feascheck as F
from vmc.checks import p06
from vmc.checks.p06 import Ctx, show, cases
from verypy.classic_heuristics import cheapest_insertion as ci, nearest_neighbor as nn

LEVEL = "model_checking"
TECHNIQUE = "nondeterministic models of both greedy rules are explored exhaustively for each enumerated problem (all orders of equal criterion values); the plan of the real code must be one of their end states, and the parallel variant the best of its tries"
NOTE = ("Complete within the bounds; ties (within 1e-9) may go either way. With a route limit only distances obeying the triangle inequality are used. "
        "Parallel insertion interleaves routes in an order this model does not fix; its feasibility is checked by P02. Tyagi's and Mole and Jameson's improvement phases are not modelled.")
BOUNDS = {"quick": "every multiset of 2-3 customers on a 3x3 grid (also in steps of 0.3, so that rounded distances vanish) x demands {1,2}^n x all C and L levels, all 4x4 matrices over {0,1,2} and over {1,2,4}, every third 5x5 matrix over {0,1} and over {1,4}, 3 layouts of 5-6 customers; 5 criterion settings, 4 seed rules; nearest neighbour with 1-4 routes, 3 seed rules, both end rules; every route limit at which another route becomes feasible, on 5-7 layouts of 5-6 customers in general position",
          "thorough": "as quick with 4 customers on the grid, all the 5x5 matrices, 6 layouts of 5-7 customers"}
ASSUMPTIONS = ["symmetric distances"]


def near(P):
    D = P.D
    return lambda un: G.pick(un, lambda x: min([D[x][y] for y in un if y != x], default=0))


def by(P, how):
    D = P.D
    if how == "closest":
        return lambda un: G.pick(un, lambda x: D[0][x])
    if how == "lowest":
        return lambda un: [min(un)]
    return lambda un: G.pick(un, lambda x: -D[0][x])


def strain(lm, mm):
    return lambda D, i, u, j: ci.parametrized_insertion_criteria(D, i, u, j, lm, mm)


def judge(c):
    P = c.P
    for minK in (False, True):
        model = {}

        def allowed(how, lm, mm):
            k = ("farthest" if how == "strain" else how, lm, mm)
            if k not in model:
                model[k] = G.cheapest_insertion(P, by(P, k[0]), minK, lm, mm)
            return model[k]
        for how, lm, mm in (("farthest", None, None), ("closest", None, None), ("lowest", None, None), ("farthest", 2.0, 1.0),
                            ("farthest", 0.0, 1.0), ("closest", 1.5, 0.5), ("strain", 2.0, 1.0), ("strain", 1.25, 0.25)):
            kw = {} if lm is None else {"insertion_strain_callback": strain(lm, mm)}
            w = how if how != "lowest" else (lambda D, unrouted, rd: [(0, (min(unrouted),))])
            plan, err = c.call(ci.cheapest_insertion_init, minK, 1, w, **kw)
            t = "cheapest insertion minimize_K=%s seeds=%s lambda=%s mu=%s: " % (minK, how, lm, mm)
            if err:
                return t + err
            a = allowed(how, 1.0 if lm is None else lm, 0.0 if mm is None else mm)
            if a is not None and plan not in a:
                return t + "%r is not a result of the greedy rule, which allows %s" % (plan, show(a))
        f = F.algo("si")
        plan, err = c.call(lambda D, d, C, L: f(None, D, d, C, L, None, None, False, minK))
        a = allowed("farthest", 1.0, 0.0)
        if err or (a is not None and plan not in a):
            return "si minimize_K=%s: %s" % (minK, err or "%r is not a result of the greedy rule, which allows %s" % (plan, show(a)))
    keys = {}
    for K in (1, 2, 3, 4):
        if K > P.n + 1:
            break
        for how in ("closest", "farthest", "nearest"):
            for end in (False, True):
                plan, err = c.call(nn.nearest_neighbor_init, K, how, end)
                t = "nearest neighbour routes=%d seeds=%s only_to_end=%s: " % (K, how, end)
                if err:
                    return t + err
                a = G.nearest_neighbor(P, near(P) if how == "nearest" else by(P, how), K, end)
                if a is not None and plan not in a:
                    return t + "%r is not a result of the greedy rule, which allows %s" % (plan, show(a))
        plan, err = c.call(nn.nearest_neighbor_init, K)
        t = "nearest neighbour routes=%d: " % K
        if err:
            return t + err
        a = G.nearest_neighbor(P, by(P, "closest"), K)
        if a is not None and plan not in a:
            return t + "%r is not a result of the greedy rule, which allows %s" % (plan, show(a))
        keys[K] = plan
    for name, single in (("snn", False), ("pnn", True), ("pnn", False)):
        f = F.algo(name)
        plan, err = c.call(lambda D, d, C, L: f(None, D, d, C, L, None, None, single, False))
        t = "%s single=%s: " % (name, single)
        if err:
            return t + err
        k1 = len(keys[1])
        if single or name == "snn":
            tries = [keys[1]]
        else:
            tries = [keys[K] for K in range(1, k1 + 1) if K in keys]
            if k1 > len(tries):
                for K in range(len(tries) + 1, k1 + 1):
                    q, err = c.call(nn.nearest_neighbor_init, K)
                    if err:
                        return "nearest neighbour routes=%d: %s" % (K, err)
                    tries.append(q)
        w = p06.best_of(P, plan, tries, False)
        if w:
            return t + w
    return None


def all_cases(src):
    if src[0] == "tenth":       # coordinates so close that rounded distances vanish
        _, n, step, first = src
        for pts in I.grid(n, ((1, 1), (0, 0))):
            if pts[1] != first:
                continue
            p = [(x * step, y * step) for x, y in pts]
            for case in I.complete(p, "EUC_2D", itertools.product((1, 2), repeat=n)):
                D = ref.matrix(p, "EUC_2D")
                if case[4] is None or G.metric(D):
                    yield D, case[2], case[3], case[4]
    else:
        for x in cases(src):
            yield x


def shards(tier):
    q = tier == "quick"
    for s in p06.shards(tier):
        yield s
    for n in (2, 3):
        for step in (0.3, 0.6):
            for first in I.G3:
                yield (tier, ("tenth", n, step, first), 0, 3 if q and n == 3 else 1)
    for pre in itertools.product((0, 1, 2), repeat=2):
        yield (tier, ("matrix", 3, (0, 1, 2), pre, 1), 0, 1)
    for pre in itertools.product((0, 1), repeat=4):
        yield (tier, ("matrix", 4, (0, 1), pre, 3 if q else 1), 0, 1)


def run(shard, rec):
    tier, src, part, parts = shard
    for i, (D, d, C, L) in enumerate(all_cases(src)):
        if i % parts != part:
            continue
        rec.state((D.tobytes(), D.dtype.kind, repr((d, C, L))))
        c = Ctx(D, d, C, L)
        w = judge(c)
        rec.step(c.runs); rec.valid(c.runs)
        rec.outcome("%s n=%d C=%s L=%s" % (src[0], len(D) - 1, C is not None, L is not None))
        if w:
            rec.fail({"D": D, "d": d, "C": C, "L": L}, "%s on d=%r C=%r L=%r D=%r" % (w, d, C, L, D.tolist()))
        if i == part:
            rec.sample({"D": D.tolist(), "d": d, "C": C, "L": L})


def replay(case):
    return judge(Ctx(case["D"], case["d"], case["C"], case["L"]))
