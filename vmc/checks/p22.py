"""P22: TSP solvers return valid tours with their true cost."""
import functools, importlib, itertools, os, random, sys
import numpy as np
from vmc import ref, nb
from vmc import instances as I
from vmc.core import guarded, scratch_file
from verypy.tsp_solvers import tsp_solver_ropt as ropt

LEVEL = "model_checking"
TECHNIQUE = "every distance matrix of the bounded space and every order of the listed nodes is given to the real solvers; tours are checked against the set of all tours of those nodes (cost, optimality, 2-opt and 3-opt neighbourhoods by edge exchange)"
NOTE = ("Complete within the bounds. The LKH and ACOTSP programs are not in this sandbox: their wrappers run against a stand-in program that reads the files the wrapper wrote and answers in the program's published format with an optimal tour, starting as LKH does at the first node. "
        "The LKH wrapper starts at the depot wherever it is listed, so it is judged on lists with the depot first or absent. The cost a wrapper reports may differ by the precision it scales distances with.")
BOUNDS = {"quick": "4 nodes: every symmetric matrix over {0,1,2} (729) x every order (the exact solver on every eighth); 5 nodes: every matrix over {1,2} x first node x 2 orders; layouts of 2-8 nodes: every ordered selection of 2-4 nodes, every order of 5 and 6 nodes, every start and direction of 7-9 nodes and two-cluster layouts of up to 12; open and closed lists; every result of the shuffling of 2-5 nodes; stand-in programs: ordered selections of the layouts (1200 runs)",
          "thorough": "as quick with every matrix over {0,1,2,3} of 4 nodes, over {1,2,3} of 5 nodes, and more runs of the stand-ins"}
ASSUMPTIONS = ["symmetric distances", "a listed node is repeated only to close the tour"]

STAND = r'''#!%s -IS
import sys, itertools
def solve(path):
    n, w, on = 0, [], False
    for l in open(path):
        l = l.strip()
        if l.startswith("DIMENSION"): n = int(l.split(":")[1])
        elif l == "EDGE_WEIGHT_SECTION": on = True
        elif l and l[0].isalpha(): on = False
        elif on: w += [float(x) for x in l.split()]
    M = [[0.0]*n for _ in range(n)]
    it = iter(w)
    for i in range(n):
        for j in range(i+1, n):
            M[i][j] = M[j][i] = next(it)
    assert next(it, None) is None
    if any(x != int(x) for x in w): sys.exit("only integer weights are supported")
    c, t = min((sum(M[a][b] for a, b in zip((0,)+p, p+(0,))), p) for p in itertools.permutations(range(1, n)))
    return int(c), (0,)+t
a = sys.argv[1:]
if "-i" in a:
    c, t = solve(a[a.index("-i")+1])
    print("try 0, Best %%d, found at iteration 1" %% c)
    print("best solution so far is " + " ".join(map(str, t)))
else:
    par = dict((x.strip() for x in l.split("=")) for l in open(a[0]) if "=" in l)
    c, t = solve(par["PROBLEM_FILE"])
    open(par["OUTPUT_TOUR_FILE"], "w").write("NAME : temporary.%%d.tour\nCOMMENT : Length = %%d\nCOMMENT : Found by LKH\nTYPE : TOUR\nDIMENSION : %%d\nTOUR_SECTION\n%%s\n-1\nEOF\n" %% (c, c, len(t), "\n".join(str(x+1) for x in t)))
'''


def load(names):
    out = {}
    for mod, fs in names:
        m = importlib.import_module("verypy.tsp_solvers." + mod)
        for f in fs:
            out[f] = getattr(m, f)
    return out


INPROC = [("tsp_solver_ropt", ("solve_tsp_ropt", "solve_tsp_2opt", "solve_tsp_3opt")), ("tsp_solver_gurobi", ("solve_tsp_gurobi",))]
EXTERN = [("tsp_solver_lkh", ("solve_tsp_lkh",)), ("tsp_solver_acotsp", ("solve_tsp_acotsp",)), ("tsp_solver_fast", ("solve_tsp_fast",))]


@functools.lru_cache(maxsize=None)
def external():
    """Solvers that call a program, pointed to a stand-in for that program."""
    from verypy import config
    p = scratch_file("standin")
    with open(p, "w") as f:
        f.write(STAND % sys.executable)
    os.chmod(p, 0o755)
    config.LKH_EXE_PATH = config.ACOTSP_EXE_PATH = p
    return load(EXTERN)


@functools.lru_cache(maxsize=None)
def tours(n):
    """Edge vectors of all tours of n nodes."""
    pairs = {p: k for k, p in enumerate(itertools.combinations(range(n), 2))}
    rows = []
    for p in itertools.permutations(range(1, n)):
        if n > 2 and p[0] > p[-1]:
            continue
        v = np.zeros(len(pairs), dtype=np.int8)
        t = (0,) + p + (0,)
        for a, b in zip(t, t[1:]):
            v[pairs[(a, b) if a < b else (b, a)]] += 1
        rows.append(v)
    return pairs, np.array(rows)


def best_tour(D, sel):
    n = len(sel)
    if n <= 8:
        pairs, T = tours(n)
        w = np.array([D[sel[a], sel[b]] for a, b in pairs])
        return (T @ w).min()
    inf = float("inf")
    m = n - 1
    f = {(1 << j, j): D[sel[0], sel[j + 1]] for j in range(m)}
    for S in range(1, 1 << m):
        for j in range(m):
            if (S, j) in f:
                for k in range(m):
                    if not S >> k & 1:
                        c = f[(S, j)] + D[sel[j + 1], sel[k + 1]]
                        if c < f.get((S | 1 << k, k), inf):
                            f[(S | 1 << k, k)] = c
    return min(f[((1 << m) - 1, j)] + D[sel[j + 1], sel[0]] for j in range(m))


def near_best(D, sel, tour, k):
    """Cheapest tour made from this one by exchanging at most k edges."""
    n = len(sel)
    if n <= 8:
        pairs, T = tours(n)
        w = np.array([D[sel[a], sel[b]] for a, b in pairs])
        v = np.zeros(len(pairs), dtype=np.int8)
        ix = {x: i for i, x in enumerate(sel)}
        for a, b in zip(tour, tour[1:]):
            a, b = ix[a], ix[b]
            v[pairs[(a, b) if a < b else (b, a)]] += 1
        near = np.where(v[None, :] > T, v[None, :] - T, 0).sum(axis=1) <= k
        return (T[near] @ w).min()
    c = lambda r: sum(D[a, b] for a, b in zip(r, r[1:]))
    return min(map(c, (nb.two_opt if k == 2 else nb.three_opt)(tuple(tour)) | {tuple(tour)}))


class Shuffled(object):
    """random.shuffle, always to the given order."""
    def __init__(self, perm):
        self.perm = perm

    def __call__(self, x, *a):
        if len(x) == len(self.perm):
            x[:] = [x[i] for i in self.perm]

    def __enter__(self):
        self.old = (random.shuffle, getattr(ropt, "shuffle", None))
        random.shuffle = self
        if self.old[1] is not None:
            ropt.shuffle = self

    def __exit__(self, *a):
        random.shuffle = self.old[0]
        if self.old[1] is not None:
            ropt.shuffle = self.old[1]


def shuffles(D, s, rec=None):
    """All results of the shuffling and all switches."""
    for closed in (False, True):
        for two, three in ((True, True), (True, False), (False, True), (False, False)):
            for p in itertools.permutations(range(len(s) - 1)):
                with Shuffled(p):
                    w = judge("solve_tsp_ropt shuffled %d%d" % (two, three), lambda D, l: ropt.solve_tsp_ropt(D, l, do_shuffle=True, do2opt=two, do3opt=three), D, list(s), closed)
                if rec:
                    rec.step(); rec.valid()
                if w:
                    return "do_shuffle=True to %r, do2opt=%s, do3opt=%s%s: %s" % (p, two, three, ", closed list" if closed else "", w)
    return None


def judge(name, f, D, sel, closed):
    lst = list(sel) + ([sel[0]] if closed else [])
    arg = list(lst)
    D0 = D.copy()
    r, err = guarded(lambda: f(D, arg), 30)
    if err:
        return err
    if arg != lst or not np.array_equal(D, D0):
        return "changed its inputs"
    tour, c = r
    if not isinstance(tour, list) or len(tour) != len(sel) + 1 or tour[0] != sel[0] or tour[-1] != sel[0] or sorted(tour[:-1]) != sorted(sel):
        return "returned %r, not a tour of the nodes from the first of them" % (tour,)
    true = sum(float(D[a, b]) for a, b in zip(tour, tour[1:]))
    isf = D.dtype.kind == "f"
    slack = 1e-6 + (len(sel) / 1000.0 if isf and name in ("solve_tsp_lkh",) else 0)
    if c is None or abs(c - true) > slack * (1 if slack > 1e-6 else max(1, abs(true))):
        return "returned the tour %r as costing %r, its cost is %r" % (tour, c, true)
    given = sum(float(D[a, b]) for a, b in zip(lst, lst[1:] + [lst[0]]))
    tol = 1e-6 * max(1, abs(true))
    if name.startswith("solve_tsp_gurobi"):
        b = best_tour(D, list(sel))
        if true > b + tol:
            return "returned the tour %r of cost %r, the optimum is %r" % (tour, true, b)
    elif name in ("solve_tsp_ropt", "solve_tsp_2opt", "solve_tsp_3opt"):
        if true > given + tol:
            return "returned the tour %r of cost %r, worse than the given order of cost %r" % (tour, true, given)
        k = 2 if name == "solve_tsp_2opt" else 3
        b = near_best(D, list(sel), tour, k)
        if true > b + tol:
            return "returned the tour %r of cost %r, exchanging %d edges gives %r" % (tour, true, k, b)
    elif name.startswith("solve_tsp_ropt shuffled"):
        k = 3 if name[-1] == "1" else 2 if name[-2] == "1" else 0
        b = near_best(D, list(sel), tour, k) if k else true
        if true > b + tol:
            return "returned the tour %r of cost %r, exchanging %d edges gives %r" % (tour, true, k, b)
    elif name in ("solve_tsp_lkh", "solve_tsp_acotsp"):
        b = best_tour(D, list(sel))
        if true > b + len(sel) / 1000.0 + tol:
            return "returned the tour %r of cost %r, the program found one of %r" % (tour, true, b)
    return None


def full(n, al):
    iu = np.triu_indices(n, 1)
    for v in itertools.product(al, repeat=n * (n - 1) // 2):
        M = np.zeros((n, n), dtype=int)
        M[iu] = v
        yield M + M.T


def layouts():
    for k in sorted(I.LAYOUTS):
        yield k, I.LAYOUTS[k]
    yield "two12", [(0, 0), (1, 0), (0, 1), (20, 3), (21, 3), (20, 5), (1, 1), (22, 4), (0, 2), (21, 6), (2, 2), (23, 5)]
    yield "three9", [(0, 0), (1, 0), (0, 1), (20, 3), (21, 3), (20, 5), (9, 30), (10, 31), (8, 31)]
    yield "dup6", [(0, 0)] * 3 + [(1, 0)] * 3
    yield "two2", [(0, 0), (3, 4)]


def cases(tier):
    """(kind of solvers, D, selection)"""
    q = tier == "quick"
    for M in full(4, (0, 1, 2) if q else (0, 1, 2, 3)):
        for s in itertools.permutations(range(4)):
            yield "in", M, s
    for M in full(5, (1, 2) if q else (1, 2, 3)):
        for a in range(5):
            r = tuple((a + i) % 5 for i in range(5))
            yield "in", M, r
            if q:
                yield "in", M, (r[0], r[2], r[4], r[1], r[3])
    for name, pts in layouts():
        n = len(pts)
        for wt in ("EXACT_2D", "EUC_2D"):
            D = ref.matrix(pts, wt)
            for k in (2, 3, 4):
                for s in itertools.permutations(range(min(n, 7)), k):
                    yield "in", D, s
            for k in (5, 6):
                if k <= n:
                    for i, s in enumerate(itertools.permutations(range(k))):
                        if k == 5 or i % 6 == 0 or not q:
                            yield "in", D, s
            if n >= 7:
                for a in range(n):
                    r = tuple((a + i) % n for i in range(n))
                    for s in (r, r[::-1], r[::2] + r[1::2]):
                        yield "in", D, s


def ext_cases(tier):
    i = 0
    for name, pts in layouts():
        n = min(len(pts), 7)
        for wt in ("EXACT_2D", "EUC_2D"):
            D = ref.matrix(pts, wt)
            for k in range(2, n + 1):
                for s in itertools.permutations(range(n), k):
                    i += 1
                    step = {2: 2, 3: 6, 4: 24, 5: 96, 6: 240, 7: 480}[k]
                    if i % step == 0 or (tier != "quick" and i % (step // 4 + 1) == 0):
                        yield "ext", D, s


def shuf_cases(tier):
    for name, pts in layouts():
        for wt in ("EXACT_2D", "EUC_2D"):
            D = ref.matrix(pts, wt)
            for k in range(2, 6 if tier == "quick" else 7):
                for a in range(len(pts) if k <= len(pts) else 0):
                    yield "shuf", D, tuple((a + i) % len(pts) for i in range(k))


def shards(tier):
    for i in range(4):
        yield (tier, "shuf", i, 4)
    for i in range(32):
        yield (tier, "in", i, 32)
    for i in range(8):
        yield (tier, "ext", i, 8)


def run(shard, rec):
    tier, kind, part, parts = shard
    if kind == "shuf":
        for i, (_, D, s) in enumerate(shuf_cases(tier)):
            if i % parts == part:
                rec.state((D.tolist(), s))
                w = shuffles(D, s, rec)
                if w:
                    rec.fail({"kind": kind, "D": D, "nodes": list(s)}, "solve_tsp_ropt on nodes %r with distances %r: %s" % (list(s), D.tolist(), w))
        return
    fs = load(INPROC) if kind == "in" else external()
    for i, (_, D, s) in enumerate(cases(tier) if kind == "in" else ext_cases(tier)):
        if i % parts != part:
            continue
        rec.state((D.tolist(), s))
        for name in sorted(fs):
            if name == "solve_tsp_lkh" and 0 in s[1:]:
                continue        # its wrapper starts tours with the depot
            if name == "solve_tsp_gurobi" and len(s) == 4 and tier == "quick" and D.max() <= 2 and (i // parts) % 8:
                continue
            for closed in (False, True) if kind == "in" else (False,):
                w = judge(name, fs[name], D, list(s), closed)
                rec.step(); rec.valid()
                rec.outcome("%s %d" % (name, len(s)))
                if w:
                    rec.fail({"kind": kind, "solver": name, "D": D, "nodes": list(s), "closed": closed}, "%s on nodes %r%s with distances %r: %s" % (name, list(s), " (closed)" if closed else "", D.tolist(), w))
        if i == part:
            rec.sample({"nodes": list(s), "D": D})


def replay(case):
    if case["kind"] == "shuf":
        return shuffles(case["D"], case["nodes"])
    fs = load(INPROC) if case["kind"] == "in" else external()
    return judge(case["solver"], fs[case["solver"]], case["D"], case["nodes"], case["closed"])
