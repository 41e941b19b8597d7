"""P32: the Lagrangian 3-opt* search works on the exact penalised objective."""
import itertools
from functools import partial
import numpy as np
from vmc import ref, instances as I
from vmc.core import guarded
from vmc.plans import graph
from verypy.local_search import LSOPT
from verypy.local_search.solution_operators import do_3optstar_move
from verypy.classic_heuristics import lr3opt as lr

LEVEL = "model_checking"
TECHNIQUE = "explicit graph of all plans, feasible or not (edges: at most three replaced tour edges), with penalised costs computed independently; the real relaxed move is executed on every node and compared with all outgoing edges; the whole heuristic is compared with a step by step model from enumerated starts"
NOTE = ("Complete within the bounds: every plan of the enumerated problems, however far over its limits, with and without an empty route, for each penalty weight. "
        "The model of the whole heuristic uses the library's own relaxed move for its steps, so it decides the weights, their doubling, the stopping rule and the post-optimisation.")
BOUNDS = {"quick": "moves: every plan of 8 layouts of 2-5 customers (and a sixth of the 3x3 grid multisets of 3) x 2-3 demand vectors x C x L levels x penalty weights {0.05, 1, 8} (also equal weights with both limits) x with/without an empty route x both strategies; whole runs: 6 layouts of 4-6 customers x 3 starts x demand vectors x C x L levels x 3 settings",
          "thorough": "as quick with every demand vector over {1,3}, all multisets of 3 and layouts of 6 customers"}
ASSUMPTIONS = ["planar distances, weights greater than zero", "changes within 1e-6 of zero or of each other may be judged either way"]

LAY = {
    "t2": [(0, 0), (21, 4), (-9, 16)],
    "t3": [(0, 0), (21, 4), (-9, 16), (13, -18)],
    "u3": [(1, 1), (18, 20), (23, 17), (24, 25)],
    "t4": [(0, 0), (31, 7), (-12, 26), (-23, -19), (17, -28)],
    "u4": [(0, 0), (40, 11), (43, -9), (5, 37), (-21, 13)],
    "x4": [(0, 0), (3, 0), (6, 0), (0, 4), (0, 4)],
    "t5": [(2, 3), (29, 14), (11, 33), (-19, 22), (-27, -13), (13, -26)],
    "u5": [(5, 1), (38, 6), (34, 17), (16, 36), (-24, 5), (7, -31)],
    "t6": [(1, 2), (30, 9), (21, 27), (-6, 33), (-28, 12), (-20, -21), (15, -30)],
    "u6": [(0, 0), (12, 41), (17, 33), (35, 19), (28, -14), (-11, -26), (-36, 3)],
}


def excess(r, D, d, C, L):
    x = max(0.0, sum(d[v] for v in r) - C) if C else 0.0
    y = max(0.0, ref.rcost(r, D) - L) if L else 0.0
    return x, y


def penalised(g, D, d, C, L):
    """Per plan its cost and what it is over the limits."""
    memo = {}

    def one(r):
        if r not in memo:
            memo[r] = (ref.rcost(r, D),) + excess(r, D, d, C, L)
        return memo[r]
    return np.array([[sum(x) for x in zip(*[one(r) for r in p])] for p in g.plans])


def checker(lam):
    f = getattr(lr, "_check_lr3opt_move", None)
    return partial(f, lambdas=list(lam)) if f else None


def move(D, d, C, L, lam, sol, st, g=None, T=None, i=None):
    """Judge the relaxed move from one listing of one plan."""
    n = len(D) - 1
    g = g or graph(n)
    if T is None:
        T = penalised(g, D, d, C, L)
    P = T[:, 0] + (lam[0] or 0) * T[:, 1] + (lam[1] or 0) * T[:, 2]
    if i is None:
        i = g.idx[ref.canon([r for r in ref.split(sol) if r])]
    ch = checker(lam)
    if ch is None:
        return None
    nb = g.within(i, 3)
    empty = sol[-2:] == [0, 0]
    if not empty:
        nb = nb[g.size[nb] <= g.size[i]]
    inp = list(sol)
    out, err = guarded(lambda: do_3optstar_move(inp, D, list(d) if d else None, C, L, strategy=st, move_checker=ch), 10)
    if err:
        return err
    new, rep = out
    best = (P[nb] - P[i]).min()
    if new is None or rep is None:
        if best < -1e-6:
            j = nb[(P[nb] - P[i]).argmin()]
            return "no move found although %r changes the penalised cost by %r" % (g.plans[j], float(best))
        return None
    new = list(new)
    if not new or new[0] or new[-1] or sorted(x for x in new if x) != list(range(1, n + 1)):
        return "the new plan is malformed: %r" % (new,)
    j = g.idx[ref.canon([r for r in ref.split(new) if r])]
    true = P[j] - P[i]
    if abs(true - rep) > 1e-6:
        return "%r: reported a change of the penalised cost by %r, it is %r" % (new, float(rep), float(true))
    if true > 1e-9:
        return "%r raises the penalised cost by %r" % (new, float(true))
    if st == LSOPT.BEST_ACCEPT and true > best + 1e-6:
        return "%r changes the penalised cost by %r, the best move by %r" % (new, float(true), float(best))
    return None


def lams(C, L):
    for a, b in ((0.05, 0.05), (1.0, 1.0), (8.0, 8.0), (0.05, 8.0), (8.0, 0.05)):
        if (not C or not L) and a != b:
            continue
        yield (a if C else None, b if L else None)


def moves(case, rec, part=0, parts=1):
    pts, wt, d, C, L = case
    D = ref.matrix(pts, wt)
    n = len(D) - 1
    g = graph(n)
    T = penalised(g, D, d, C, L)
    for i, p in enumerate(g.plans):
        if i % parts != part:
            continue
        s = ref.join([list(r) for r in p])
        for lam in lams(C, L):
            for sol in (s, s + [0]) if n <= 4 else (s + [0],):
                for st in (LSOPT.FIRST_ACCEPT, LSOPT.BEST_ACCEPT):
                    rec.step(); rec.valid()
                    w = move(D, d if C else None, C, L, lam, sol, st, g, T, i)
                    if w:
                        yield ["move", [list(map(list, pts)), wt, d, C, L], list(lam), sol, st], "relaxed 3-opt* from %r weights %r strategy %s on points=%r %s d=%r C=%r L=%r: %s" % (sol, lam, st, pts, wt, d, C, L, w)


# ---- the whole heuristic ---------------------------------------------------

def feasible(sol, D, d, C, L):
    return all(x <= 1e-9 for r in ref.split(sol) for x in excess(tuple(r), D, d, C, L))


def model(start, D, d, C, L, l1, l2, post, incs):
    """Relaxed first-accept descent, doubling the weights whenever it is stuck
    over the limits; post-optimised when stuck within them."""
    ch = getattr(lr, "_check_lr3opt_move", None)
    if ch is None:
        return None
    mx = float(max(D[i, j] for i in range(len(D)) for j in range(len(D))))
    lam = [l1, l2]
    if C and l1 is None:
        lam[0] = sum(d) / float(len(d)) / (20 * mx)
    if L and l2 is None:
        n = len(D)
        lam[1] = sum(min(D[i, j] for i in range(n) if i != j) for j in range(n)) / n / (10 * mx)
    if (C and not lam[0]) or (L and not lam[1]):
        return None
    sol, stuck = list(start), 0
    for _ in range(5000):
        while not (sol[-1] == 0 and sol[-2] == 0):
            sol = sol + [0]
        new, delta = do_3optstar_move(sol, D, d, C, L, strategy=LSOPT.FIRST_ACCEPT, move_checker=partial(ch, lambdas=lam))
        if delta is not None and list(new) != sol:
            sol, stuck = list(new), 0
            continue
        if feasible(sol, D, d, C, L):
            while post:
                new, delta = do_3optstar_move(sol, D, d, C, L, strategy=LSOPT.FIRST_ACCEPT)
                if delta is None:
                    break
                sol = list(new)
            return ref.canon([r for r in ref.split(sol) if r])
        lam = [None if x is None else 2 * x for x in lam]
        stuck += 1
        if float("inf") in lam or (incs is not None and stuck > incs):
            out = []
            for r in ref.split(sol):        # cut at the last point before each violation
                cur = []
                for x in r:
                    if cur and not feasible([0] + cur + [x, 0], D, d, C, L):
                        out.append(cur); cur = []
                    cur.append(x)
                if cur:
                    out.append(cur)
            return ref.canon(out)
    return None


SETTINGS = [dict(), dict(postoptimize_with_3optstar=False), dict(max_concecutive_lamba_incs=1, postoptimize_with_3optstar=False), dict(initial_lambda1_C=2.0, initial_lambda1_L=0.01)]


def starts(n):
    yield [0] + list(range(1, n + 1)) + [0]
    yield [0] + list(range(1, n + 1, 2)) + list(range(2, n + 1, 2))[::-1] + [0]
    yield [0] + [x for c in range(1, n + 1) for x in (c, 0)]


def whole(case, start, kw):
    pts, wt, d, C, L = case
    D = ref.matrix(pts, wt)
    dd = list(d) if C else None
    want, err = guarded(lambda: model(start, D, dd, C, L, kw.get("initial_lambda1_C"), kw.get("initial_lambda1_L"),
                                      kw.get("postoptimize_with_3optstar", True), kw.get("max_concecutive_lamba_incs")), 60)
    if err or want is None:
        return None
    if not (C or L):
        return None
    f = lambda D, d, C, L: (list(start), sum(D[a, b] for a, b in zip(start, start[1:])))
    got, err = guarded(lambda: lr.lr3opt_init(D.copy(), dd, C, L, initialization_algorithm=f, **kw), 30)
    tag = "Lagrangian 3-opt* from %r with %r on points=%r %s d=%r C=%r L=%r" % (start, kw, pts, wt, d, C, L)
    if err:
        return tag + " " + err
    p = ref.plan_problem(got, D, dd, C, L)
    if p:
        return "%s: plan %s" % (tag, p)
    have = ref.canon([r for r in ref.split(got) if r])
    if have != want:
        return "%s: %r, its rules lead to %r" % (tag, have, want)
    return None


def problems(name, wt, vecs, dense):
    pts = LAY[name]
    D = ref.matrix(pts, wt)
    m = float(max(2 * D[0, i] for i in range(1, len(pts))))
    for v in vecs:
        d = [0] + list(v)
        for C in [None] + sorted({max(v), max(max(v), sum(v) // 2)}):
            if C is None and v != vecs[0]:
                continue
            for L in (None, m, m * 1.25) + ((m * 1.7,) if dense else ()):
                if C or L:
                    yield pts, wt, d, C, L


def shards(tier):
    q = tier == "quick"
    for name in sorted(LAY):
        n = len(LAY[name]) - 1
        if n == 6 and q:
            continue
        vecs = [tuple((1, 3, 2, 1, 3, 2)[:n]), tuple((2, 1, 1, 3, 1, 2)[:n])] if q or n == 6 else list(itertools.product((1, 3), repeat=n))
        if q and n == 5:
            vecs = vecs[:1]
        parts = 1 if n < 4 else 4 if n == 4 else 12
        for wt in ("EXACT_2D",) if n > 4 else ("EXACT_2D", "EUC_2D"):
            for k in range(parts):
                yield ("moves", name, wt, vecs, k, parts, q)
    for k in range(8):
        yield ("grid", q, k, 8)
    for name in ("t4", "u4", "t5", "u5", "t6", "u6"):
        n = len(LAY[name]) - 1
        vecs = [v for i, v in enumerate(itertools.product((1, 2, 4), repeat=n)) if i % ({4: 7, 5: 31, 6: 121}[n] if q else {4: 2, 5: 7, 6: 29}[n]) == 3]
        for k in range(4):
            yield ("whole", name, vecs, k, 4, q)


def run(shard, rec):
    kind = shard[0]
    if kind == "moves":
        _, name, wt, vecs, part, parts, q = shard
        for case in problems(name, wt, vecs, not q):
            rec.state((kind, repr(case), part))
            for c, w in moves(case, rec, part, parts):
                rec.fail(c, w)
    elif kind == "grid":
        _, q, part, parts = shard
        for i, pts in enumerate(I.grid(3, ((1, 1), (0, 0)))):
            if i % parts != part or (q and i // parts % 6):
                continue
            for case in I.complete(pts, "EXACT_2D", [(1, 2, 1)]):
                if case[3] or case[4]:
                    rec.state((kind, repr(case)))
                    for c, w in moves(case, rec):
                        rec.fail(c, w)
    else:
        _, name, vecs, part, parts, q = shard
        for i, case in enumerate(problems(name, "EXACT_2D", vecs, not q)):
            if i % parts != part:
                continue
            for s in starts(len(case[0]) - 1):
                for kw in SETTINGS:
                    rec.state((kind, repr(case), repr(s), repr(kw))); rec.step(); rec.valid()
                    w = whole(case, s, kw)
                    if w:
                        rec.fail(["whole", [list(map(list, case[0]))] + list(case[1:]), s, kw], w)


def replay(case):
    c = ([tuple(x) for x in case[1][0]],) + tuple(case[1][1:])
    if case[0] == "move":
        D = ref.matrix(c[0], c[1])
        return move(D, c[2] if c[3] else None, c[3], c[4], tuple(case[2]), list(case[3]), case[4])
    return whole(c, list(case[2]), case[3])
