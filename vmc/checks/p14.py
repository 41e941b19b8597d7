"""P14: solution encodings, on every solution with few customers."""
import itertools, re, numpy as np
from vmc import ref
from vmc.core import guarded
from verypy import util, cvrp_ops, cvrp_io
from verypy.routedata import RouteData

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of every solution and encoding variant, conversions compared with a set-of-routes model"
NOTE = ("Complete for every ordered list of ordered routes up to the customer bound and every placement of surplus depot "
        "visits up to the bound. Trusted: the set-of-routes reading in vmc/ref.py.")
BOUNDS = {"quick": "every giant tour over 1-5 customers (each permutation and cut), with every insertion of up to 2 surplus depots for up to 4; route lists with each depot-ends variant; equality of normal forms on all pairs for up to 3 customers",
          "thorough": "as quick over 1-7 customers and all pairs for up to 4"}
ASSUMPTIONS = ["customers are numbered 1..n and served once; giant tours end at the depot"]


def mats(n):
    pts = [(0, 0), (3, 4), (0, 5), (6, 1), (-2, 3), (-4, -4), (2, -3), (5, 5)][:n + 1]
    return [ref.matrix(pts, "EUC_2D"), ref.matrix(pts)]


def shards(tier):
    top = 5 if tier == "quick" else 7
    for n in range(1, top + 1):
        if n < 5:
            yield ("tour", n, None)
        else:
            for f in range(1, n + 1):
                yield ("tour", n, f)
    for n in range(1, (3 if tier == "quick" else 4) + 1):
        yield ("pairs", n, None)
    yield ("first_valid", 0, None)


def parse_opt(s):
    """Reads the published solution format."""
    routes, c = [], None
    for line in s.splitlines():
        m = re.match(r"^Route #(\d+):(.*)$", line.strip())
        if m:
            if int(m.group(1)) != len(routes) + 1:
                return None, None
            routes.append([int(x) for x in m.group(2).split()])
        m = re.match(r"^[Cc]ost\s*:?\s*(\S+)$", line.strip())
        if m:
            c = float(m.group(1))
    return routes, c


def parse_vrph(v):
    """First entry size, a negative number starts a route, 0 ends the list."""
    v = [int(x) for x in v]
    body = v[1:]
    if body[-1] != 0 or 0 in body[:-1]:
        return None
    routes = []
    for x in body[:-1]:
        if x < 0:
            routes.append([-x])
        else:
            routes[-1].append(x)
    return routes


def check_tour(n, routes, zeros):
    """routes: list of non-empty routes; zeros: surplus depots at each depot visit."""
    Ds = mats(n)
    sol = []
    for k, r in enumerate(routes):
        sol += [0] * (1 + zeros[k]) + list(r)
    sol += [0] * (1 + zeros[len(routes)])
    plain = ref.join(routes)
    full = [[0] + list(r) + [0] for r in routes]
    d = [0] + [1.5 * i for i in range(1, n + 1)]
    keep = list(sol)
    r = util.sol2routes(sol)
    if [list(x) for x in r] != full:
        return "sol2routes(%r) = %r" % (sol, r)
    if list(util.without_empty_routes(sol)) != plain:
        return "without_empty_routes(%r) = %r" % (sol, util.without_empty_routes(sol))
    canon = ref.canon(routes)
    norm = cvrp_ops.normalize_solution(sol)
    if ref.canon(ref.split(norm)) != canon or norm[0] != 0 or norm[-1] != 0 or any(a == b for a, b in zip(norm, norm[1:])):
        return "normalize_solution(%r) = %r" % (sol, norm)
    if cvrp_ops.normalize_solution(norm) != norm:
        return "normalize_solution is not idempotent on %r" % (norm,)
    if sol != keep:
        return "conversion changed its input %r" % (keep,)
    for D in Ds:
        want = float(ref.cost(plain, D))
        for name, v in (("recalculate_objective(tour)", cvrp_ops.recalculate_objective(sol, D)),
                        ("objf(tour)", util.objf(sol, D)),
                        ("recalculate_objective(routes)", cvrp_ops.recalculate_objective(full, D)),
                        ("recalculate_objective(normal)", cvrp_ops.recalculate_objective(norm, D))):
            if not ref.close(v, want):
                return "%s of %r is %r, cost is %r" % (name, sol, v, want)
    if util.totald(sol, d) != sum(d) or util.totald(sol, None) != 0:
        return "totald(%r) = %r" % (sol, util.totald(sol, d))
    if all(z == 0 for z in zeros):
        for sym in (True, False):
            es = util.sol2edgeset(sol, sym)
            if set(map(tuple, es)) != {(min(e), max(e)) if sym else e for e in zip(plain, plain[1:])}:
                return "sol2edgeset(%r, %r) = %r" % (sol, sym, es)
        if set(util.sol2edgeset(sol)) != set(util.sol2edgeset(sol, True)):
            return "sol2edgeset(%r) = %r" % (sol, es)
        for c in (want, int(round(want)), want + 0.125, 0, 1e5 + 1 / 3.):
            rs, cc = parse_opt(cvrp_io.as_OPT_solution(c, sol))
            if rs != [list(x) for x in routes] or cc is None or abs(cc - c) > 0.005000001:
                return "as_OPT_solution(%r, %r) = %r" % (c, sol, cvrp_io.as_OPT_solution(c, sol))
        rs = parse_vrph(cvrp_io.as_VRPH_solution(sol))
        if rs != [list(x) for x in routes]:
            return "as_VRPH_solution(%r) = %r" % (sol, cvrp_io.as_VRPH_solution(sol))
        rds = RouteData.from_solution(sol, Ds[1], d)
        if [list(rd.route) for rd in rds] != full or RouteData.to_solution(rds) != plain:
            return "RouteData.from_solution/to_solution of %r" % (sol,)
        for rd, rr in zip(rds, routes):
            if not ref.close(rd.cost, ref.rcost(rr, Ds[1])) or not ref.close(rd.demand, ref.rdem(rr, d)) or set(rd.node_set) != set(rr):
                return "RouteData.from_solution(%r) has wrong cost, demand or node set" % (sol,)
    else:
        rs, cc = parse_opt(cvrp_io.as_OPT_solution(5, sol))
        if rs != [list(x) for x in routes]:
            return "as_OPT_solution(5, %r) = %r" % (sol, cvrp_io.as_OPT_solution(5, sol))
        rs = parse_vrph(cvrp_io.as_VRPH_solution(sol))
        if rs != [list(x) for x in routes]:
            return "as_VRPH_solution(%r) = %r" % (sol, cvrp_io.as_VRPH_solution(sol))
    return None


def check_list(n, routes, ends):
    """Route lists whose routes may lack either depot visit, or be empty."""
    D = mats(n)[0]
    lst = []
    for r, e in zip(routes, ends):
        lst.append([0] * (e & 1) + list(r) + [0] * (e >> 1 & 1))
    plain = ref.join([r for r in routes if r])
    keep = [list(x) for x in lst]
    got = util.routes2sol(lst)
    if [list(x) for x in lst] != keep:
        return "routes2sol changed its input %r" % (keep,)
    if got is None or list(util.without_empty_routes(got)) != plain or (all(routes) and list(got) != plain):
        return "routes2sol(%r) = %r" % (lst, got)
    norm = cvrp_ops.normalize_solution(lst)
    if ref.canon(ref.split(norm)) != ref.canon([r for r in routes if r]):
        return "normalize_solution(%r) = %r" % (lst, norm)
    if norm != cvrp_ops.normalize_solution(plain):
        return "normalize_solution differs between %r and %r" % (lst, plain)
    f = cvrp_ops.recalculate_objective(lst, D)
    if not ref.close(f, ref.cost(plain, D)):
        return "recalculate_objective(%r) = %r, cost is %r" % (lst, f, ref.cost(plain, D))
    return None


def do(kind, args):
    w, err = guarded(lambda: {"tour": check_tour, "list": check_list, "pair": check_pair, "fv": check_fv, "better": check_better, "natural": check_natural}[kind](*args), 10)
    return ("%s %r: %s" % (kind, args, err)) if err else w


def check_pair(n, a, b):
    same = ref.canon(ref.split(a)) == ref.canon(ref.split(b))
    eq = cvrp_ops.normalize_solution(a) == cvrp_ops.normalize_solution(b)
    if same != eq:
        return "normal forms of %r and %r are %s, the solutions are %s" % (a, b, "equal" if eq else "different", "the same" if same else "different")
    return None


def check_fv(l):
    want = next((x for x in l if x), None)
    got = util.first_valid(list(l))
    if got != want:
        return "first_valid(%r) = %r" % (l, got)
    if None not in l and util.is_sorted(list(l)) != (list(l) == sorted(l)):
        return "is_sorted(%r) = %r" % (l, util.is_sorted(list(l)))
    return None


def check_better(f0, k0, f, k, minK):
    if f is None or k is None:
        want = False
    elif f0 is None or k0 is None:
        want = True
    else:
        want = (k, f) < (k0, f0) if minK else f < f0
    got = util.is_better_sol(f0, k0, f, k, minK)
    if bool(got) != want:
        return "is_better_sol(%r, %r, %r, %r, minimize_K=%r) = %r" % (f0, k0, f, k, minK, got)
    return None


def check_natural(l):
    key = lambda s: [(0, int(x), "") if x.isdigit() else (1, 0, x.lower()) for x in re.findall("[0-9]+|[^0-9]+", s)]
    got = util.natural_sort(list(l))
    if sorted(got) != sorted(l) or any(key(a) > key(b) for a, b in zip(got, got[1:])):
        return "natural_sort(%r) = %r" % (l, got)
    return None


def run(shard, rec):
    kind, n, first = shard
    def go(kind, *args):
        rec.state((kind,) + args)
        rec.step()
        w = do(kind, args)
        rec.valid()
        if w:
            rec.fail([kind, list(args)], w)
    if kind == "first_valid":
        for k in range(0, 5):
            for l in itertools.product((None, 0, 1, 2, 3), repeat=k):
                go("fv", l)
        for f0, k0, f, k in itertools.product((None, 0, 1.5, 2, 7), (None, 0, 1, 2, 3), (None, 0, 1.5, 2, 7), (None, 0, 1, 2, 3)):
            for m in (False, True):
                go("better", f0, k0, f, k, m)
        for k in range(0, 4):
            for l in itertools.product(("p-n9", "p-n10-k2", "p-n10-k10", "P-N2", "p-n010", "q1", "p-n"), repeat=k):
                go("natural", l)
        rec.outcome("first_valid")
        return
    if kind == "pairs":
        tours = [ref.join(c) for p in itertools.permutations(range(1, n + 1)) for c in ref.compositions(p)]
        for a in tours:
            for b in tours:
                go("pair", n, a, b)
        rec.outcome("pairs n=%d" % n)
        return
    for p in itertools.permutations(range(1, n + 1)):
        if first and p[0] != first:
            continue
        for c in ref.compositions(p):
            slots = len(c) + 1
            zs = [(0,) * slots]
            if n <= 4:
                zs += [tuple((i == k) + 0 for i in range(slots)) for k in range(slots)]
                zs += [tuple((i == k) + (i == m) for i in range(slots)) for k in range(slots) for m in range(k, slots)]
            else:
                zs += [(1,) * slots]
            for z in zs:
                go("tour", n, c, z)
            ends = itertools.product(range(4), repeat=len(c)) if len(c) <= (4 if n <= 4 else 2) else [(3,) * len(c), (0,) * len(c), (1,) * len(c), (2,) * len(c)]
            for e in ends:
                go("list", n, c, e)
            for k in range(len(c) + 1):
                for e in (0, 1, 3):
                    go("list", n, c[:k] + [[]] + c[k:], (3,) * k + (e,) + (3,) * (len(c) - k))
            rec.outcome("n=%d routes=%d" % (n, len(c)))
    rec.sample({"giant tour": ref.join(c)})


def replay(case):
    return do(case[0], case[1])
