"""P18: written problem and solution files read back as the same thing."""
import itertools
import numpy as np
from vmc import ref
from vmc.core import guarded
from vmc.checks.p17 import put, same
from verypy import cvrp_io

LEVEL = "model_checking"
TECHNIQUE = "every problem, selection and plan of the bounded space is written by the real code and read back by the real reader (and a second, independent reader of the published format); both must agree with what was written"
NOTE = "Complete within the bounds. The first selected node is the depot. The VRPH text is decoded by its published rule."
BOUNDS = {"quick": "problems of 2-5 nodes, 5 distance matrices each, every ordered selection of at least two nodes (5 nodes: of up to 3 and all), precision none/1/10/1000, demands, capacity, limit present or not, integer or fractional, .vrp and .tsp; every plan of 1-5 customers in every order of routes and directions (5 customers: 1000 orders each way bounded by plan) with 1108 costs (one customer: all; up to 3: 21 of them) as .opt file and VRPH list",
          "thorough": "as quick with every ordered selection of 5 nodes, and plans of 6 customers"}
ASSUMPTIONS = ["distances are multiples of 0.25, below 2^53", "limits, when given, are positive"]


def matrices(n):
    k = itertools.count(1)
    M = np.zeros((n, n))
    for i in range(n):
        for j in range(i + 1, n):
            M[i, j] = M[j, i] = next(k)
    yield "int", M.astype(int)
    yield "intfloat", M * 1.0
    yield "frac", M * 7.25
    yield "big", M * 123456.75
    yield "small", (M - 1).clip(0) * 0.25


DEMANDS = {"none": lambda n: None, "int": lambda n: [0] + [3 * i for i in range(1, n)], "frac": lambda n: [0.0] + [0.5 + i for i in range(1, n)], "depot": lambda n: [9] + [i for i in range(1, n)],
           "np": lambda n: [np.float64(0)] + [np.float64(i * 1.125) for i in range(1, n)]}
CS = [None, 7, 7.5, 1000000, np.float64(12.0)]
LS = [None, 100, 100.5, 123456.789]


def selections(n, tier):
    yield None
    for k in range(2, n + 1):
        if n == 5 and tier == "quick" and k == 4:
            continue
        for s in itertools.permutations(range(n), k):
            yield list(s)


def problems(tier):
    for n in (2, 3, 4, 5):
        for mi, (mn, M) in enumerate(matrices(n)):
            for sel in selections(n, tier):
                for prec in (None, 1, 10, 1000):
                    for ext in (".vrp", ".tsp"):
                        for dn in DEMANDS if ext == ".vrp" and prec in (None, 10) and n < 5 else ("int",):
                            yield {"n": n, "m": mn, "sel": sel, "prec": prec, "ext": ext, "d": dn, "C": 50, "L": None}
    for n in (2, 3, 4):
        for mn, M in matrices(n):
            for sel in (None, list(range(n))[::-1], list(range(1, n)) if n > 2 else None):
                for dn, C, L, ext in itertools.product(DEMANDS, range(len(CS)), range(len(LS)), (".vrp", ".VRP", ".tsp")):
                    yield {"n": n, "m": mn, "sel": sel, "prec": None, "ext": ext, "d": dn, "C": ("i", C), "L": ("i", L)}


def numbers(path):
    """Independent reader of the written subset of the format."""
    toks, sec, out = [], None, {"w": [], "d": {}}
    for l in open(path):
        l = l.strip()
        if l and l[0].isalpha():
            sec = l.split(":")[0].strip()
            if ":" in l:
                out[sec] = l.split(":", 1)[1].strip()
            continue
        if sec == "EDGE_WEIGHT_SECTION":
            out["w"] += [float(x) for x in l.split()]
        elif sec == "DEMAND_SECTION" and l:
            a, b = l.split()
            out["d"][int(a)] = float(b)
    return out


def judge_problem(p):
    n = p["n"]
    D = dict(matrices(n))[p["m"]]
    d = DEMANDS[p["d"]](n)
    C = CS[p["C"][1]] if isinstance(p["C"], (tuple, list)) else p["C"]
    L = LS[p["L"][1]] if isinstance(p["L"], (tuple, list)) else p["L"]
    path = put("", "w%s" % p["ext"])
    D0 = D.copy()
    d0 = None if d is None else list(d)
    sel0 = None if p["sel"] is None else list(p["sel"])
    _, err = guarded(lambda: cvrp_io.write_TSPLIB_file(path, D, d, C, L, sel0, p["prec"]), 10)
    if err:
        return "writing " + err
    if not np.array_equal(D, D0) or d != d0 or sel0 != p["sel"]:
        return "writing changed its inputs"
    sel = p["sel"] or list(range(n))
    W = D[np.ix_(sel, sel)].astype(float)
    if p["prec"]:
        W = np.trunc(W * p["prec"])
    want_d = None
    if p["ext"].lower() == ".vrp":
        want_d = [0] + [1 if d is None else d[i] for i in sel[1:]]
    got, err = guarded(lambda: cvrp_io.read_TSPLIB_CVRP(path), 10)
    if err:
        return "reading back " + err
    if got.size != len(sel) - 1:
        return "size read back as %r instead of %d" % (got.size, len(sel) - 1)
    if not same(got.distance_matrix, W):
        return "distances read back as %r instead of %r" % (got.distance_matrix.tolist(), W.tolist())
    if want_d is not None and not same(got.customer_demands, want_d):
        return "demands read back as %r instead of %r" % (got.customer_demands, want_d)
    if want_d is not None:
        if C is not None and got.capacity_constraint != C:
            return "capacity read back as %r instead of %r" % (got.capacity_constraint, C)
        if C is None and got.capacity_constraint is not None and got.capacity_constraint < sum(want_d):
            return "without a capacity limit the file has one of %r that binds" % (got.capacity_constraint,)
        (K, RL, ST), err = guarded(lambda: cvrp_io.read_TSBLIB_additional_constraints(path), 10)
        if err:
            return "reading the limits " + err
        if RL != L or K is not None or ST is not None:
            return "limits read back as %r instead of route limit %r only" % ((K, RL, ST), L)
    raw = numbers(path)
    up = [W[i, j] for i in range(len(sel)) for j in range(i + 1, len(sel))]
    if raw.get("EDGE_WEIGHT_FORMAT") == "UPPER_ROW" and not same(raw["w"], up):
        return "the file lists weights %r instead of %r" % (raw["w"], up)
    if str(raw.get("DIMENSION")) != str(len(sel)):
        return "the file says dimension %r" % (raw.get("DIMENSION"),)
    return None


COSTS = [0, 1, 12, 1234567, 12.5, 0.25, 99.99, 1000.0] + [7 + i / 1000.0 for i in range(1000)] + [98765 + i / 100.0 for i in range(100)]
FEW = COSTS[:8] + [7.004, 7.006, 7.008, 7.014, 7.05, 7.1, 7.49, 7.5, 7.51, 7.99, 7.992, 7.996, 7.999]


def orders(n):
    for p in ref.ordered_splits(range(1, n + 1)):
        p = ref.canon(p)
        for o in itertools.permutations(p) if n < 5 else (p, p[::-1]):
            for m in range(2 ** len(o)) if n < 5 else (0, 2 ** len(o) - 1, 1):
                yield [list(r[::-1]) if m >> i & 1 else list(r) for i, r in enumerate(o)]


def judge_solution(routes, cost, form, name):
    sol = ref.join(routes)
    if form == "open":          # also tolerated: no depot at the ends, doubled depots
        sol = sol[1:-1]
    elif form == "double":
        sol = [0] + [x for v in sol for x in ([v, v] if v == 0 else [v])]
    s0 = list(sol)
    txt, err = guarded(lambda: cvrp_io.as_OPT_solution(cost, sol), 10)
    if err:
        return "as_OPT_solution " + err
    got, err = guarded(lambda: cvrp_io.read_OPT_CVRP(put(txt, name)), 10)
    if err:
        return "reading back %r %s" % (txt, err)
    rs, f, k = got
    if rs != ref.join(routes):
        return "routes %r were read back as %r from %r" % (routes, rs, txt)
    if f is None or abs(f - cost) > 0.005 + 1e-9:
        return "cost %r was read back as %r" % (cost, f)
    if k != len(routes):
        return "%d routes were read back as %r vehicles" % (len(routes), k)
    # the published layout, read independently
    mine = []
    for l in txt.splitlines():
        if l.startswith("Route"):
            mine.append([int(x) for x in l.split(":")[1].split()])
    if mine != routes:
        return "the text lists the routes %r" % (mine,)
    if form != "double":
        v, err = guarded(lambda: cvrp_io.as_VRPH_solution(ref.join(routes)), 10)
        if err:
            return "as_VRPH_solution " + err
        n = max(max(r) for r in routes)
        dec = []
        body = list(v[1:-1])
        for x in body:
            if x < 0:
                dec.append([-x])
            elif dec:
                dec[-1].append(x)
            else:
                return "VRPH list %r does not start a route" % (v,)
        if v[0] != n + 1 or v[-1] != 0 or dec != routes:
            return "VRPH list %r decodes to %r, the plan is %r" % (v, dec, routes)
    if sol != s0:
        return "exporting changed the plan"
    return None


def solutions(tier):
    for n in range(1, 6 if tier == "quick" else 7):
        for i, routes in enumerate(orders(n)):
            for c in COSTS if n == 1 else FEW if n < 4 else COSTS[i % len(COSTS):][:1]:
                for form in ("full", "open", "double"):
                    for name in ("s.opt", "s-k%d.opt" % len(routes)) if n < 4 else ("s.opt",):
                        yield routes, c, form, name
    for routes in ([[12, 10], [100, 7]], [[1000], [21, 3, 11]], [[i] for i in range(1, 25)]):
        for c in FEW:
            yield routes, c, "full", "s.opt"


def shards(tier):
    for i in range(16):
        yield (tier, "problem", i, 16)
    for i in range(8):
        yield (tier, "solution", i, 8)


def run(shard, rec):
    tier, kind, part, parts = shard
    for i, case in enumerate(problems(tier) if kind == "problem" else solutions(tier)):
        if i % parts != part:
            continue
        rec.state(case)
        w = judge_problem(case) if kind == "problem" else judge_solution(*case)
        rec.step(2); rec.valid()
        rec.outcome(kind if kind == "solution" else "problem " + case["ext"])
        if w:
            rec.fail({"kind": kind, "case": case}, "%s; %r" % (w, case))
        if i == part:
            rec.sample({kind: case})


def replay(case):
    c = case["case"]
    return judge_problem(c) if case["kind"] == "problem" else judge_solution(*c)
