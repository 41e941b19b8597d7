"""P06: savings heuristics follow the greedy savings rule and keep the best try."""
import itertools
import numpy as np
from vmc import ref, greedy as G, instances as I, feascheck as F
from vmc.core import guarded
from verypy.classic_heuristics import parallel_savings as ps, sequential_savings as ss, gaskell_savings as gs, paessens_savings as pa, suppression_savings as sup

LEVEL = "model_checking"
TECHNIQUE = "a nondeterministic model of the greedy rule is explored exhaustively for each enumerated problem (all orders of equal savings); the plan of the real code must be one of its end states, and multi-try variants the best of their tries"
NOTE = ("Complete within the bounds; ties (savings within 1e-9) may go either way, so a change of tie-breaking alone is not reported. "
        "With a route limit only distances obeying the triangle inequality are used (a merge refused once then stays refused). "
        "Larger problems are not covered; of Paessens' M1 grid of 143 parameters a 12 point subgrid is used.")
BOUNDS = {"quick": "every multiset of 2-3 customers on a 3x3 grid x demands {1,2}^n x all C and L levels, all 4x4 matrices over {1,2,4} with capacities only, a third of the 5x5 matrices over {1,4}, 3 layouts of 5-6 customers; both objectives; seeds closest, farthest, savings; 1-6 suppressions; every route limit at which another route becomes feasible, on 5-7 layouts of 5-6 customers in general position",
          "thorough": "as quick with 4 customers on the grid, all 5x5 matrices over {1,4}, 6 layouts of 5-7 customers"}
ASSUMPTIONS = ["symmetric distances", "merging may stop at, or pass over, a pair of negative saving when another criterion orders the pairs"]


def pi_S(P):
    D = P.D
    return {(i, j): D[i][0] + D[0][j] - 2 * D[i][j] for i, j in G.cw(D)}


def lam_S(P):
    D = P.D
    N = P.n + 1
    avg = sum(map(sum, D)) / float(N * N)
    return {(i, j): (D[i][0] + D[0][j] - D[i][j]) * (avg + abs(D[0][i] - D[0][j]) - D[i][j]) for i, j in G.cw(D)}


def gf_S(P, g, f):
    D = P.D
    return {(i, j): D[i][0] + D[0][j] - g * D[i][j] + f * abs(D[i][0] - D[0][j]) for i, j in G.cw(D)}


def seeds_by(P, how):
    D = P.D
    if how == "closest":
        def f(un):
            m = min(D[0][x] for x in un)
            return [x for x in un if D[0][x] <= m + G.TIE]
    elif how == "farthest":
        def f(un):
            m = max(D[0][x] for x in un)
            return [x for x in un if D[0][x] >= m - G.TIE]
    else:       # an end of the pair with the largest saving of all pairs, among those left
        def f(un):
            v = {j: max(D[i][0] + D[0][j] - D[i][j] for i in range(1, P.n + 1) if i != j) for j in un}
            m = max(v.values())
            return [x for x in un if v[x] >= m - G.TIE]
    return f


class Ctx:
    def __init__(self, D, d, C, L):
        self.D, self.d, self.C, self.L = D, d, C, L
        self.P = G.Problem(D, d, C, L)
        self.runs = 0

    def call(self, f, *a, **k):
        self.runs += 1
        dd = list(self.d) if self.d is not None else None
        out, err = guarded(lambda: f(self.D.copy(), dd, self.C, self.L, *a, **k), 8)
        if err:
            return None, err
        p = ref.plan_problem(out, self.D, self.d, self.C, self.L)
        if p:
            return None, "the plan " + p
        return ref.canon(ref.split(out)), None


def judge(c, quick=True):
    P = c.P
    for minK in (False, True):
        o = "minimize_K=%s" % minK
        # parallel savings
        plan, err = c.call(ps.parallel_savings_init, minK)
        if err:
            return "parallel savings %s: %s" % (o, err)
        S = G.cw(P.D)
        reach = G.parallel_savings(P, S, minK)
        if reach is not None and plan not in reach:
            return "parallel savings %s: %r is not a result of the greedy rule, which allows %s" % (o, plan, show(reach))
        # sequential savings
        for how in ("closest", "farthest", "savings") if P.n > 1 else ("closest",):
            plan, err = c.call(ss.sequential_savings_init, minK, how)
            if err:
                return "sequential savings %s seeds=%s: %s" % (o, how, err)
            reach = G.sequential_savings(P, seeds_by(P, how), minK)
            if reach is not None and plan not in reach:
                return "sequential savings %s seeds=%s: %r is not a result of the greedy rule, which allows %s" % (o, how, plan, show(reach))
        # Gaskell
        got = {}
        for m, S in (("pi", pi_S(P)), ("lambda", lam_S(P))):
            got[m], err = c.call(gs.gaskell_savings_init, minK, m)
            if err:
                return "Gaskell %s %s: %s" % (m, o, err)
            w = member(P, S, minK, got[m])
            if w:
                return "Gaskell %s %s: %s" % (m, o, w)
        both, err = c.call(gs.gaskell_savings_init, minK)
        if err:
            return "Gaskell both %s: %s" % (o, err)
        w = best_of(P, both, got.values(), minK)
        if w:
            return "Gaskell both %s: %s" % (o, w)
        # Paessens
        w = paessens(c, minK, o)
        if w:
            return w
        # suppression
        w = suppression(c, minK, o)
        if w:
            return w
        # as called by the command line
        for name, want in (("ps", None), ("ss", None), ("gpl", both), ("gpl1", got["pi"])):
            f = F.algo(name.rstrip("1"))
            plan, err = c.call(lambda D, d, C, L: f(None, D, d, C, L, None, None, name == "gpl1", minK))
            if err:
                return "%s %s: %s" % (name, o, err)
            if want is None:
                S = G.cw(P.D)
                reach = G.parallel_savings(P, S, minK) if name == "ps" else G.sequential_savings(P, seeds_by(P, "closest"), minK)
                if reach is not None and plan not in reach:
                    return "%s %s: %r is not a result of the greedy rule, which allows %s" % (name, o, plan, show(reach))
            elif P.key(plan, minK) != P.key(want, minK):
                return "%s %s: %r has objective %r, its settings give %r" % (name, o, plan, P.key(plan, minK), P.key(want, minK))
    return None


def show(s):
    s = sorted(s)
    return "%r%s" % (s[:4], " ..." if len(s) > 4 else "")


def member(P, S, minK, plan):
    for stop in (True, False):
        reach = G.parallel_savings(P, S, minK, stop)
        if reach is None or plan in reach:
            return None
    return "%r is not a result of the greedy rule, which allows %s" % (plan, show(reach))


def best_of(P, plan, tries, minK):
    keys = [P.key(t, minK) for t in tries]
    k = P.key(plan, minK)
    if k != min(keys):
        return "%r has objective %r, the best of the tries %r" % (plan, k, min(keys))
    return None


def paessens(c, minK, o):
    P = c.P
    single = {}

    def run(g, f, opt):
        key = (round(g, 6), round(f, 6), opt)
        if key not in single:
            single[key] = c.call(pa.paessens_savings_init, minK, [(g, f)], opt)
        return single[key]
    four = [(1.0, 0.1), (1.0, 0.5), (1.4, 0.0), (1.4, 0.5)]
    for g, f in four + [(0.8, 1.0), (2.0, 0.3)]:
        plan, err = run(g, f, False)
        if err:
            return "Paessens g=%g f=%g %s: %s" % (g, f, o, err)
        w = member(P, gf_S(P, g, f), minK, plan)
        if w:
            return "Paessens g=%g f=%g %s: %s" % (g, f, o, w)
    lst = [(0.8, 1.0), (1.4, 0.5), (1.0, 0.1), (2.0, 0.3)]
    plan, err = c.call(pa.paessens_savings_init, minK, lst, False)
    if err:
        return "Paessens list %s: %s" % (o, err)
    w = best_of(P, plan, [run(g, f, False)[0] for g, f in lst], minK)
    if w:
        return "Paessens %r %s: %s" % (lst, o, w)
    for opt in (True, False):
        m4, err = c.call(pa.paessens_savings_init, minK, "M4", opt)
        if err:
            return "Paessens M4 3opt=%s %s: %s" % (opt, o, err)
        first = {}
        for gf in four:
            plan, err = run(gf[0], gf[1], opt)
            if err:
                return "Paessens g=%g f=%g 3opt=%s %s: %s" % (gf + (opt, o, err))
            first[gf] = P.key(plan, minK)
        b = min(first.values())
        allowed = set()
        for gf in four:
            if first[gf] != b:
                continue
            g, f = gf
            more = []
            for x in ((g - .1, f), (g + .1, f), (g, f - .1), (g, f + .1)):
                plan, err = run(x[0], x[1], opt)
                if err:
                    return "Paessens g=%g f=%g 3opt=%s %s: %s" % (x + (opt, o, err))
                more.append(P.key(plan, minK))
            allowed.add(min(more + [b]))
        if P.key(m4, minK) not in allowed:
            return "Paessens M4 3opt=%s %s: %r has objective %r, the best of its tries %r" % (opt, o, m4, P.key(m4, minK), sorted(allowed))
    return None


def suppression(c, minK, o):
    P = c.P
    pairs = P.n * (P.n - 1) // 2
    prev = None
    for k in (list(range(1, 7)) if P.n > 3 else [1, 2, 3]) + ["auto"]:
        plan, err = c.call(sup.suppression_savings_init, minK, k)
        if err:
            return "suppression L'=%s %s: %s" % (k, o, err)
        kk = min(pairs, P.n // 7 + 5 if k == "auto" else k)
        if kk < 1:
            continue
        key = P.key(plan, minK)
        keys, plans = G.suppression(P, minK, kk) if kk <= 3 or P.n <= 3 else (None, None)
        if keys is not None:
            if plan not in plans:
                return "suppression L'=%s %s: %r is not a result of any of its tries %s" % (k, o, plan, show(plans))
            if key not in keys:
                return "suppression L'=%s %s: %r has objective %r, the best of its tries has one of %r" % (k, o, plan, key, sorted(keys)[:5])
        if k != "auto":
            if prev is not None and key > prev:
                return "suppression L'=%s %s: %r has objective %r, one try fewer gives %r" % (k, o, plan, key, prev)
            prev = key
        elif kk == min(pairs, 5) and prev is not None and P.n <= 3 and key != prev:
            return "suppression L'=auto %s: %r has objective %r, as many tries give %r" % (o, plan, key, prev)
    return None


def limit_shards(tier):
    """General layouts, every critical route limit (a fixed part of them for six customers)."""
    q = tier == "quick"
    for name in sorted(I.GENERAL):
        five = name.startswith("gen5")
        if q and not five and name != "gen6a":
            continue
        for part in range(4):
            yield (tier, ("limits", name, 1 if five or not q else 8), part, 4)


def cases(src):
    kind = src[0]
    if kind == "limits":
        for x in I.limited(*src[1:]):
            yield x
        return
    if kind in ("grid", "layout"):
        for pts, wt, d, C, L in F.source_cases(src):
            D = ref.matrix(pts, wt)
            if L is not None and not G.metric(D):
                continue
            yield D, d, C, L
    else:
        _, n, alpha, pre, step = src
        m = (n + 1) * n // 2
        iu = np.triu_indices(n + 1, 1)
        for k, rest in enumerate(itertools.product(alpha, repeat=m - len(pre))):
            if k % step:
                continue
            D = np.zeros((n + 1, n + 1), dtype=int)
            D[iu] = pre + rest
            D = D + D.T
            d = [0] + [1 + i % 2 for i in range(n)]
            for C in (None, 2, 3, sum(d) - 1) if n == 3 else (3,):
                yield D, d, C, None


def shards(tier):
    q = tier == "quick"
    for name in ("ring5", "line5", "clus6") if q else ("ring5", "line5", "coin5", "clus6", "far6", "spir7"):
        for wk in ("EXACT_2D", "EUC_2D"):
            for f in (1, 2):
                for part in range(8):
                    yield (tier, ("layout", name, wk, (1, 2), False, f), part, 8 if not q else 32)
    for n in (2, 3) if q else (2, 3, 4):
        for dep in ((1, 1), (0, 0)):
            for wk in ("EXACT_2D", "EUC_2D", "EUC_2Dx7"):
                for first in I.G3:
                    if q and n == 3 and wk != ("EXACT_2D" if dep == (1, 1) else "EUC_2Dx7"):
                        continue
                    yield (tier, ("grid", n, dep, wk, (1, 2), n <= 2, first), 0, 1)
    for x in limit_shards(tier):
        yield x
    for pre in itertools.product((1, 2, 4), repeat=2):
        yield (tier, ("matrix", 3, (1, 2, 4), pre, 1), 0, 1)
    for pre in itertools.product((1, 4), repeat=4):
        yield (tier, ("matrix", 4, (1, 4), pre, 3 if q else 1), 0, 1)


def run(shard, rec):
    tier, src, part, parts = shard
    for i, (D, d, C, L) in enumerate(cases(src)):
        if i % parts != part:
            continue
        rec.state((D.tobytes(), D.dtype.kind, repr((d, C, L))))
        c = Ctx(D, d, C, L)
        w = judge(c)
        rec.step(c.runs); rec.valid(c.runs)
        rec.outcome("%s n=%d C=%s L=%s" % (src[0], len(D) - 1, C is not None, L is not None))
        if w:
            rec.fail({"D": D, "d": d, "C": C, "L": L}, "%s on d=%r C=%r L=%r D=%r" % (w, d, C, L, D.tolist()))
        if i == part:
            rec.sample({"D": D.tolist(), "d": d, "C": C, "L": L})


def replay(case):
    return judge(Ctx(case["D"], case["d"], case["C"], case["L"]))
